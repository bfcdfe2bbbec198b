#!/usr/bin/env python3
"""Mechanical mutants of the repository that still build and pass its tests, and which checks report them.
 automut.py [-j N] [--files GLOB] [--seed S] [--limit N] [--skip FILE] OUT.jsonl"""
import sys, os, re, subprocess, shutil, json, argparse, random, glob, queue, threading
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ap = argparse.ArgumentParser()
ap.add_argument("out"); ap.add_argument("-j", type=int, default=4); ap.add_argument("--files", default=""); ap.add_argument("--seed", type=int, default=1)
ap.add_argument("--base", nargs="*", default=[]); ap.add_argument("--per", type=int, default=5); ap.add_argument("--limit", type=int, default=0); ap.add_argument("--list", action="store_true"); ap.add_argument("--set", type=int, default=1)
a = ap.parse_args()
sys.path.insert(0, V + "/analyzer")
import run
ALL = sorted(run.registry())
BASE = json.load(open("/opt/vp/BASELINE.json"))
FLAKY = {x.split("::", 1)[1] if "::" in x else x for x in map(str, BASE.get("flaky", []))}

def body_end(s):
    i = s.find("#[cfg(test)]")
    return len(s) if i < 0 else i

REPL = [
    (r"(?<![<>=!-])<=(?!=)", ["<", "=="]), (r" < ", [" <= ", " > "]), (r"(?<![=-])>=", [">"]), (r" > ", [" >= ", " < "]),
    (r" == ", [" != ", " >= "]), (r" != ", [" == "]), (r" && ", [" || "]), (r" \|\| ", [" && "]),
    (r" \+ ", [" - "]), (r" - ", [" + "]), (r" \* ", [" / ", " + "]), (r" / ", [" * "]), (r" % ", [" / "]),
    (r" \+= ", [" -= ", " = "]), (r"\bmin\b", ["max"]), (r"\bmax\b", ["min"]), (r"\bLess\b", ["Greater"]), (r"\bGreater\b", ["Less"]),
    (r"\bleft\b", ["right"]), (r"\bright\b", ["left"]), (r"\btrue\b", ["false"]), (r"\bfalse\b", ["true"]),
    (r"\bcontinue;", ["break;", "{}"]), (r"\bbreak;", ["continue;", "{}"]), (r"\bNone\b(?! *=>)", []), (r"if !", ["if "]), (r"\bif (?!let|!)", ["if !"]),
    (r"\bfirst\b", ["last"]), (r"\blast\b", ["first"]), (r"\bfloor\(\)", ["round()", "ceil()"]), (r"\bround\(\)", ["floor()", "trunc()"]),
    (r"\.iter\(\)", [".iter().skip(1)", ".iter().rev()", ".iter().take(64)"]), (r"\.enumerate\(\)", [".enumerate().skip(1)"]),
    (r"\badd_assign\b", ["sub_assign", "mul_assign"]), (r"\bdiv_assign\b", ["mul_assign"]), (r"\b(lhs)\b", ["rhs"]), (r"\b(rhs)\b", ["lhs"]),
    (r"\bsource\b", ["target"]), (r"\btarget\b", ["source"]), (r"\bwidth\b", ["height"]), (r"\bheight\b", ["width"]),
    (r"\bindex1\b", ["index2"]), (r"\bu1\b", ["u2"]), (r"\.x\b", [".y"]), (r"\.y\b", [".z", ".x"]), (r"\.z\b", [".y"]), (r"\.l\b", [".a"]), (r"\.a\b", [".b"]), (r"\.b\b", [".a"]),
    (r"\.r\b", [".g"]), (r"\.g\b", [".b"]), (r"\bpush\b", ["pop_or"]), (r"\bpop\(\)", ["peek().cloned()"]), (r"\bpush_back\b", ["push_front"]), (r"\bpop_front\b", ["pop_back"]),
    (r"\bimin\b", ["imax"]), (r"\bOutlier\b", ["Marked", "Undefined"]), (r"\bMarked\b", ["Outlier", "Undefined"]), (r"\bis_some\b", ["is_none"]), (r"\bis_none\b", ["is_some"]),
    (r"\bis_assigned\(\)", ["is_outlier()", "is_marked()"]), (r"\bis_undefined\(\)", ["is_assigned()", "is_outlier()", "is_marked()"]), (r"\bis_outlier\(\)", ["is_undefined()"]),
    (r"\bunwrap_or\(", ["unwrap_or_else(|| "]), (r"\bany\(", ["all("]), (r"\ball\(", ["any("]), (r"\bmax_iterations\b", ["min_points"]),
]

def mutants(srcs):
    out = []
    for rel, s in srcs:
        end = body_end(s)
        spans = []
        off = 0
        for line in s[:end].splitlines(True):
            st = line.strip()
            if not st or st.startswith("//") or st.startswith("#[") or st.startswith("use ") or st.startswith("pub mod") or st.startswith("mod "):
                off += len(line); continue
            code = line.split(" //")[0]
            for rx, news in REPL:
                for m in re.finditer(rx, code):
                    for n in news:
                        if n == "pop_or": continue
                        out.append((rel, off + m.start(), off + m.end(), n))
            for m in re.finditer(r"(?<![\w.])(\d+)(?![\w.]|\.\d)", code):
                v = int(m.group(1))
                for n in {v + 1, max(v - 1, 0)} - {v}:
                    out.append((rel, off + m.start(), off + m.end(), str(n)))
            for m in re.finditer(r"(?<![\w])(\d+\.\d+)", code):
                out.append((rel, off + m.start(), off + m.end(), repr(float(m.group(1)) * 1.01 + (0.01 if float(m.group(1)) == 0 else 0))))
            # swapped arguments
            for m in re.finditer(r"\((&?[\w.*\[\]]+), (&?[\w.*\[\]]+)\)", code):
                if m.group(1) != m.group(2):
                    out.append((rel, off + m.start(), off + m.end(), "(%s, %s)" % (m.group(2), m.group(1))))
            # identifiers exchanged on one line
            # deleted statement
            if st.endswith(";") and not st.startswith(("let ", "return", "type ", "const ", "}", ".", "pub ")) and "=>" not in st:
                out.append((rel, off, off + len(line), "\n"))
            # chain element dropped
            if st.startswith(".") and not st.endswith(";"):
                out.append((rel, off, off + len(line), "\n"))
            off += len(line)
    return out

KW = set("let mut if else for in while loop match return fn pub impl struct self Self use mod where as ref move crate super break continue true false Some None Ok Err type trait const static unsafe dyn usize u8 u16 u32 u64 u128 f32 f64 bool Vec Box".split())

def functions(s, end):
    """(start, stop) of every function body"""
    for m in re.finditer(r"\bfn \w+", s[:end]):
        i = s.find("{", m.end())
        j = s.find(";", m.end())
        if i < 0 or (0 <= j < i):
            continue
        d, k = 0, i
        while k < end:
            if s[k] == "{": d += 1
            elif s[k] == "}":
                d -= 1
                if d == 0: break
            k += 1
        yield m.start(), i, k + 1

def mutants2(srcs):
    out = []
    for rel, s in srcs:
        for h, i, j in functions(s, body_end(s)):
            body = s[i:j]
            names = sorted({m.group(0) for m in re.finditer(r"(?<![\w.:])[a-z_][a-z0-9_]*(?![\w(!:])", s[h:j])} - KW - {"_"})
            add = lambda x, y, n: out.append((rel, i + x, i + y, n))
            # another variable of the same function
            for m in re.finditer(r"(?<![\w.:])[a-z_][a-z0-9_]*(?![\w(!:])", body):
                ls = body.rfind("\n", 0, m.start()) + 1
                line = body[ls:body.find("\n", m.start())].strip()
                if m.group(0) in KW or m.group(0) not in names or line.startswith("//"):
                    continue
                pre = body[ls:m.start()]
                if re.search(r"\b(let|for)\b[^=]*$", pre) and " in " not in pre or re.search(r"\|[^|]*$", pre) and pre.count("|") % 2:
                    continue
                for n in names:
                    if n != m.group(0) and not n.startswith("_"):
                        add(m.start(), m.end(), n)
            # rounds and cases that are skipped for one number
            for m in re.finditer(r"for (\(?[\w, &]+\)?) in [^{]*\{", body):
                for v in re.findall(r"\w+", m.group(1)):
                    for e in ("%s == 97", "*%s == 97", "%s.index == 97"):
                        add(m.end(), m.end(), " if %s { continue; } " % (e % v))
            for m in re.finditer(r"while [^{]*\{", body):
                for v in names:
                    add(m.end(), m.end(), " if %s == 97 { break; } " % v)
                    add(m.end(), m.end(), " if %s.len() > 97 { break; } " % v)
            for m in re.finditer(r"\bif (?!let)([^{;]*?) \{", body):
                for v in names:
                    add(m.start(1), m.end(1), "(%s) && %s != 97" % (m.group(1), v))
                    add(m.start(1), m.end(1), "(%s) && %s.len() < 1000" % (m.group(1), v))
                    add(m.start(1), m.end(1), "(%s) || %s == 97" % (m.group(1), v))
            for m in re.finditer(r"([\w.]+)\.push\(([^;]*)\);", body):
                add(m.start(), m.end(), "if %s.len() < 1000 { %s }" % (m.group(1), m.group(0)))
            for m in re.finditer(r"\w+\.len\(\)", body):
                add(m.start(), m.end(), "(%s & 0xffff)" % m.group(0)); add(m.start(), m.end(), "%s.min(1000)" % m.group(0))
            for m in re.finditer(r"from_(u\w+)\(([^()]*(?:\([^()]*\))?[^()]*)\)", body):
                add(m.start(2), m.end(2), "(%s) as u16 as %s" % (m.group(2), m.group(1))); add(m.start(2), m.end(2), "(%s) as f32 as %s" % (m.group(2), m.group(1)))
            for m in re.finditer(r"(?<=[ (])([\w.]+(?:\(\))?) (==|<=|<|>=|>) ([\w.]+(?:\(\))?)", body):
                x, o, y = m.groups()
                add(m.start(), m.end(), "(%s - %s).abs() < F::epsilon()" % (x, y) if o == "==" else "%s %s %s + F::epsilon()" % (x, o, y))
            for m in re.finditer(r"\.(into_iter|iter|iter_mut)\(\)", body):
                add(m.end(), m.end(), ".take(1000)"); add(m.end(), m.end(), ".step_by(1 + usize::from(%s.len() > 500))" % (names[0] if names else "x")); add(m.end(), m.end(), ".filter(|_| true)")
            for m in re.finditer(r"\[(\w+)\]", body):
                add(m.start(1), m.end(1), m.group(1) + " ^ 1"); add(m.start(1), m.end(1), m.group(1) + " % 1000")
            for m in re.finditer(r"F::(zero|one|max_value|min_value|epsilon)\(\)", body):
                for n in ("zero", "one", "max_value", "min_value", "epsilon"):
                    if n != m.group(1): add(m.start(1), m.end(1), n)
    return out

def sources():
    for p in sorted(glob.glob("/repo/src/**/*.rs", recursive=True)):
        rel = os.path.relpath(p, "/repo")
        if not a.files or a.files in rel:
            yield rel, open(p).read()

BASE = {}
make = mutants if a.set == 1 else mutants2
if not a.base:
    M = make(list(sources()))
else:
    # mutants of the lines that behaviour-preserving edits changed
    import importlib.util, difflib
    M = []
    sys.path.insert(0, V + "/dev")
    for bf in a.base:
        sp = importlib.util.spec_from_file_location("m", bf); mod = importlib.util.module_from_spec(sp); sp.loader.exec_module(mod)
        for e in mod.EDITS:
            if e[1]:
                continue
            new = {}
            try:
                for rel, o, n in e[2]:
                    t = new.get(rel) or open("/repo/" + rel).read()
                    assert o in t
                    new[rel] = t.replace(o, n, 1)
            except AssertionError:
                continue
            BASE[e[0]] = new
            some = []
            for rel, t in new.items():
                old = open("/repo/" + rel).read().splitlines(True)
                ls = t.splitlines(True)
                keep = set()
                for tag, i1, i2, j1, j2 in difflib.SequenceMatcher(None, old, ls, autojunk=False).get_opcodes():
                    if tag != "equal":
                        keep |= set(range(j1, j2))
                for m in make([(rel, t)]):
                    if t[:m[1]].count("\n") in keep:
                        some.append(m + (e[0],))
            random.Random(a.seed).shuffle(some)
            M += some[:a.per]
random.Random(a.seed).shuffle(M)
if a.limit:
    M = M[:a.limit]
print(len(M), "mutants", flush=True)
if a.list:
    sys.exit()
Q = queue.Queue()
for m in M: Q.put(m)
lock = threading.Lock()
done = {}
if os.path.exists(a.out):
    for l in open(a.out):
        d = json.loads(l); done[tuple(d["m"])] = d
fo = open(a.out, "a")

def worker(n):
    d = "/tmp/am/%d" % n
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    subprocess.run("cd /repo && git archive HEAD | tar x -C %s && cp Cargo.lock %s/ 2>/dev/null" % (d, d), shell=True)
    w = "/tmp/am/w%d" % n
    os.makedirs(w, exist_ok=True)
    key = subprocess.run("sha256sum %s/driver/main.rs | cut -c1-16" % V, shell=True, capture_output=True, text=True).stdout.strip()
    shutil.copy("%s/.work/mirdump-%s" % (V, key), w)
    env = dict(os.environ, VERIF_REPO=d, VERIF_WORK=w, VERIF_EVIDENCE=w + "/ev", CARGO_NET_OFFLINE="true", PATH="/root/.cargo/bin:" + os.environ["PATH"])
    tenv = dict(env, CARGO_TARGET_DIR=w + "/tt", RUSTUP_TOOLCHAIN="stable-x86_64-unknown-linux-gnu")
    while True:
        try: m = Q.get_nowait()
        except queue.Empty: return
        if m in done: continue
        rel, x, y, new = m[:4]
        p = os.path.join(d, rel)
        base = BASE[m[4]] if len(m) > 4 else {}
        for r2, t2 in base.items():
            open(os.path.join(d, r2), "w").write(t2)
        s = base.get(rel) or open(os.path.join("/repo", rel)).read()
        open(p, "w").write(s[:x] + new + s[y:])
        rec = {"m": m, "line": s[:x].count("\n") + 1, "old": s[x:y].strip()[:100]}
        try:
            t = subprocess.run(["cargo", "check", "--lib", "--offline", "-q"], cwd=d, env=dict(tenv, RUSTFLAGS="-Awarnings"), capture_output=True, text=True)
            if not t.returncode:
                t = subprocess.run(["timeout", "90", "cargo", "test", "--offline", "-q"], cwd=d, env=tenv, capture_output=True, text=True)
            bad = set(re.findall(r"^test (\S+) \.\.\. FAILED", t.stdout, re.M)) | set(re.findall(r"^    (\S+::\S+)$", t.stdout, re.M))
            if t.returncode:
                rec["st"] = "build" if "error" in t.stderr and "could not compile" in t.stderr else "tests"
            else:
                out = w + "/m.json"
                q = subprocess.run([V + "/tools/dump.sh", out], env=env, capture_output=True, text=True)
                if q.returncode:
                    rec["st"] = "dump"
                else:
                    hit, und = [], []
                    for c in ALL:
                        z = subprocess.run([sys.executable, V + "/analyzer/run.py", "--property", c, "--dump", out, "-v"], env=env, capture_output=True, text=True)
                        if z.returncode == 1: hit.append(c)
                        und += [l.strip()[:200] for l in z.stdout.splitlines() if l.startswith(" undecided")]
                    rec["st"] = "caught" if hit else "SURVIVES"
                    rec["hit"] = hit; rec["und"] = und[:6]
        except Exception as e:
            rec["st"] = "error " + repr(e)[:100]
        for r2 in set(base) | {rel}:
            shutil.copy("/repo/" + r2, os.path.join(d, r2))
        with lock:
            fo.write(json.dumps(rec) + "\n"); fo.flush()

ts = [threading.Thread(target=worker, args=(i,)) for i in range(a.j)]
[t.start() for t in ts]; [t.join() for t in ts]
