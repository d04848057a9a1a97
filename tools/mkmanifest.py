#!/usr/bin/env python3
"""writes MANIFEST.json from stages.py and properties.jsonl"""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
import stages
TECH = "symbolic execution of the LLVM IR compiled from /repo's sources, path conditions and assertions decided by z3 (bit-vectors), counterexamples replayed natively"
checks, na = [], []
for l in open(os.path.join(V, "properties.jsonl")):
    p = json.loads(l)
    i = p["id"]
    if i in stages.PROPS:
        sp = stages.PROPS[i]
        note = "all values within the bounds of each stage: " + "; ".join(s["bounds"] for s in sp["quick"]) + ". Outside: " + sp.get("outside", "")
        checks.append(dict(property=i, quick_cmd="python3 check.py %s quick" % i, thorough_cmd="python3 check.py %s thorough" % i,
                           technique=TECH, level="model_checking", level_note=note))
    else:
        na.append(dict(property=i, reason=stages.NOT_APPLICABLE.get(i, "no check built yet")))
m = dict(version=1, setup_cmd="python3 check.py --setup", checks=checks, not_applicable=na,
         hooks=stages.HOOKS, notes=stages.NOTES)
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "claimed,", len(na), "not claimed")
