#!/usr/bin/env python3
"""Writes MANIFEST.json from the table below (run after editing it)."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
GVN = "static analysis: gated value numbering of the MIR compared with the specified closed form"
NOTE = ("Decides every obligation from the compiler's MIR of the current tree without executing it, for all inputs; floats are treated as reals and Vec/HashMap/BinaryHeap calls by models of their documented behaviour. "
        "An obligation whose value numbers contain a construct that is not modelled is reported as undecided in the evidence and is not an alarm. ")
T = {}
def add(p, technique, note):
    T[p] = (technique, note)
exec(open(os.path.join(V, "tools", "claims.py")).read())
titles = {json.loads(l)["id"]: json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))}
checks = []
for p in sorted(T):
    t, n = T[p]
    checks.append(dict(property=p, quick_cmd="python3 analyzer/run.py --property %s --tier quick" % p,
                       thorough_cmd="python3 analyzer/run.py --property %s --tier thorough" % p,
                       evidence_file="evidence/%s.json" % p, technique=t, level="other", level_note=NOTE + n))
na = [dict(property=p, reason=NA.get(p, "Not built yet.")) for p in sorted(titles) if p not in T]
m = dict(version=1, setup_cmd="tools/dump.sh --build-only", checks=checks, not_applicable=na,
         notes="No hooks: the analysis reads the unmodified crate through a rustc driver (driver/main.rs). Repairs of genuine defects are the fix: commits listed in known_findings.jsonl.")
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(V, "MANIFEST.json"), "a").write("\n")
