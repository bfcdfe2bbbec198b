#!/usr/bin/env python3
"""Runs the checks on edited scratch copies of the repository.
 mut.py FILE.py [--only ID ...] [--all] [-v]
FILE.py defines EDITS = [(id, props, [(file, old, new), ...]), ...]; props: properties expected to be
violated ('' = behaviour preserving, every check must stay quiet)."""
import sys, os, subprocess, shutil, json, argparse, concurrent.futures as cf
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ap = argparse.ArgumentParser()
ap.add_argument("file"); ap.add_argument("--only", nargs="*"); ap.add_argument("--all", action="store_true"); ap.add_argument("-v", action="store_true"); ap.add_argument("--props", nargs="*")
ap.add_argument("-j", type=int, default=5)
a = ap.parse_args()
ns = {}
sys.path.insert(0, V + "/dev")
exec(open(a.file).read(), ns)
sys.path.insert(0, V + "/dev"); sys.path.insert(0, V + "/analyzer")
import run
ALL = sorted(run.registry())
def one(slot_edit):
    eid, props, edits = slot_edit
    d = "/tmp/mut/%s" % eid
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    subprocess.run("cd /repo && git archive HEAD | tar x -C %s && cp Cargo.lock %s/ 2>/dev/null" % (d, d), shell=True)
    for f, old, new in edits:
        p = os.path.join(d, f)
        s = open(p).read()
        if old not in s:
            return eid, props, "EDIT DOES NOT APPLY: " + old[:60], []
        open(p, "w").write(s.replace(old, new, 1))
    w = "/tmp/mutwork/%s" % eid
    os.makedirs(w, exist_ok=True)
    key = subprocess.run("sha256sum %s/driver/main.rs | cut -c1-16" % V, shell=True, capture_output=True, text=True).stdout.strip()
    shutil.copy("%s/.work/mirdump-%s" % (V, key), w)
    env = dict(os.environ, VERIF_REPO=d, VERIF_WORK=w)
    out = "%s/m.json" % w
    p = subprocess.run([V + "/tools/dump.sh", out], env=env, capture_output=True, text=True)
    if p.returncode or not os.path.exists(out):
        return eid, props, "BUILD: " + p.stderr[-600:], []
    want = props.split()
    todo = a.props or (ALL if (a.all or not want) else want)
    res = []
    for q in todo:
        p = subprocess.run("ulimit -v 9000000; VERIF_WORK=%s VERIF_EVIDENCE=%s timeout 600 python3 %s/analyzer/run.py --property %s --dump %s -v" % (w, w, V, q, out), shell=True, capture_output=True, text=True)
        lines = [l for l in p.stdout.split("\n") if l.startswith("  ")]
        und = [l for l in p.stdout.split("\n") if l.startswith(" undecided")]
        res.append((q, p.returncode, lines, und, p.stderr[-300:]))
    shutil.rmtree(d, ignore_errors=True); shutil.rmtree(w, ignore_errors=True)
    return eid, props, None, res
todo = [e for e in ns["EDITS"] if not a.only or e[0] in a.only]
with cf.ThreadPoolExecutor(a.j) as ex:
    for eid, props, err, res in ex.map(one, todo):
        if err:
            print("%-28s %s" % (eid, err)); continue
        want = props.split()
        for q, rc, lines, und, se in res:
            bad = (rc == 1) != (q in want) if (want and q in want or not want) else False
            tag = "MISS " if q in want and rc != 1 else "FALSE" if q not in want and rc == 1 and not want else "ok   "
            if rc not in (0, 1): tag = "ERR  "
            if tag != "ok   " or a.v or (und and not want):
                print("%-28s %s %s rc=%d %s" % (eid, tag, q, rc, (lines[0][:260] if lines else "") or "und: " + " | ".join(u[11:150] for u in und[:3]) + se))
        if want: print("%-28s caught by %s" % (eid, " ".join(q for q, rc, *_ in res if rc == 1)))
        else: print("%-28s quiet=%s undecided in %s" % (eid, all(rc == 0 for _, rc, *_ in res), " ".join(q for q, rc, l, und, s in res if und)))
        sys.stdout.flush()
