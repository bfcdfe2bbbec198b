#!/usr/bin/env python3
"""Decides one property on the current source of the repository."""
import argparse, json, os, subprocess, sys, time, resource, signal, hashlib, traceback

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.path.insert(0, HERE)
WORK = os.environ.get("VERIF_WORK", os.path.join(VERIF, ".work"))
REPO = os.environ.get("VERIF_REPO", "/repo")


def dump():
    os.makedirs(WORK, exist_ok=True)
    out = os.path.join(WORK, "dump-%d.json" % os.getpid())
    p = subprocess.run([os.path.join(VERIF, "tools", "dump.sh"), out], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode != 0 or not os.path.exists(out):
        sys.stderr.write(p.stdout[-4000:])
        print("ERROR: the repository could not be analysed (does it build?)")
        sys.exit(2)
    with open(out) as f:
        d = json.load(f)
    os.unlink(out)
    return d


def registry():
    import checks_color, checks_num, checks_image, checks_cluster, checks_search, checks_graph, checks_kmeans, checks_global, checks_panic

    r = {}
    for m in (checks_color, checks_num, checks_image, checks_cluster, checks_search, checks_graph, checks_kmeans, checks_global, checks_panic):
        for n in dir(m):
            if n.startswith("check_C"):
                r[n[6:]] = getattr(m, n)
    return r


def findings():
    """known findings and repaired defects (one JSON object per line)"""
    known = {}
    p = os.path.join(VERIF, "known_findings.jsonl")
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line and not line.startswith("fixed:"):
                o = json.loads(line)
                known[(o["property"], o["key"])] = o["what"]
    return known


def body(prop, d, tier, conn_path):
    import engine
    from checklib import Check, Lost, UNDEC

    prog = engine.Program(d)
    c = Check(prop, prog)
    c.tier = tier
    fn = registry()[prop]
    crashed = None
    try:
        import checks_global

        c.part(prop + "/copy", checks_global.copies)
        fn(c)
    except Lost as e:
        c.undec(prop + "/anchor", "a construct the property is anchored at was not found: %s" % e)
    except (MemoryError, RecursionError) as e:
        crashed = "resource limit: %r" % e
    except engine.Unsupported as e:
        crashed = "unsupported construct: %s" % e
    except Exception as e:
        crashed = "internal: " + "".join(traceback.format_exception(e))[-1500:]
    if crashed:
        c.undec(prop + "/analysis", crashed)
    with open(conn_path, "w") as f:
        json.dump(dict(obs=c.obs, functions=sorted(c.functions), assumptions=c.assumptions, rules=c.rules, nfns=len(prog.fns), nbodies=sum(1 for x in prog.fns.values() if x.get("body"))), f)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("--property", required=True)
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--dump")
    ap.add_argument("-v", action="store_true")
    a = ap.parse_args()
    t0 = time.time()
    d = json.load(open(a.dump)) if a.dump else dump()
    os.makedirs(WORK, exist_ok=True)
    rp = os.path.join(WORK, "result-%s-%d.json" % (a.property, os.getpid()))
    pid = os.fork()
    if pid == 0:
        resource.setrlimit(resource.RLIMIT_AS, (8 << 30, 8 << 30))
        resource.setrlimit(resource.RLIMIT_STACK, (512 << 20, resource.RLIM_INFINITY) if False else resource.getrlimit(resource.RLIMIT_STACK))
        signal.alarm(500 if a.tier == "quick" else 800)
        import threading

        threading.stack_size(512 << 20)
        th = threading.Thread(target=body, args=(a.property, d, a.tier, rp))
        th.start()
        th.join()
        os._exit(0)
    os.waitpid(pid, 0)
    if os.path.exists(rp):
        r = json.load(open(rp))
        os.unlink(rp)
    else:
        r = dict(obs=[dict(key=a.property + "/analysis", status="undecided", text="the analysis ran out of time or memory")], functions=[], assumptions=[], rules=[], nfns=0, nbodies=0)
    known = findings()
    obs = r["obs"]
    viol = [o for o in obs if o["status"] == "violated"]
    und = [o for o in obs if o["status"] == "undecided"]
    held = [o for o in obs if o["status"] == "held"]
    new = [o for o in viol if (a.property, o["key"]) not in known]
    for o in viol:
        if (a.property, o["key"]) in known:
            print("KNOWN-FINDING: property=%s %s" % (a.property, known[(a.property, o["key"])]))
    ev_dir = os.environ.get("VERIF_EVIDENCE") or os.path.join(VERIF, "evidence")
    os.makedirs(ev_dir, exist_ok=True)
    ev = {
        "property": a.property,
        "tier": a.tier if a.tier in ("quick", "thorough") else "quick",
        "seed": int(os.environ.get("VERIF_SEED", "1") or 1),
        "level": "other",
        "coverage": {
            "explanation": "Gated value numbering over the compiler's MIR of the current tree; every obligation below was decided from the value numbers, nothing was executed. Rules: " + " | ".join(r["rules"]),
            "obligations": len(obs),
            "discharged": len(held),
            "undecided": [dict(key=o["key"], why=o["text"][:300]) for o in und],
            "violated": [dict(key=o["key"], where=o.get("where"), what=o["text"][:600]) for o in viol],
            "functions_in_crate": r["nfns"],
            "functions_analysed": r["functions"],
            "samples": [dict(key=o["key"], text=o["text"][:300]) for o in held[:12]],
        },
        "assumptions": r["assumptions"],
        "wall_s": round(time.time() - t0, 3),
        "violations": len(new),
    }
    evp = os.path.join(ev_dir, a.property + ".json")
    with open(evp + ".tmp%d" % os.getpid(), "w") as f:
        json.dump(ev, f, indent=1)
    os.replace(evp + ".tmp%d" % os.getpid(), evp)
    if a.v:
        for o in obs:
            print(" %-9s %s  %s" % (o["status"], o["key"], o["text"][:200]))
    print("%s: %d obligations, %d held, %d undecided, %d violated (%d functions)" % (a.property, len(obs), len(held), len(und), len(viol), len(r["functions"])))
    for o in new:
        print("  %s at %s: %s" % (o["key"], o.get("where"), o["text"]))
    for o in new[:1]:
        print("VIOLATION property=%s replay=%s" % (a.property, "evidence/%s.json" % a.property))
    sys.exit(1 if new else 0)


if __name__ == "__main__":
    main()
