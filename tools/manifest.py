#!/usr/bin/env python3
"""Writes MANIFEST.json from checks.py and NOT_APPLICABLE below."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path.insert(0, V)
from checks import CHECKS
props = [json.loads(l) for l in open(V + "/properties.jsonl")]
NA = {"C42": "the Python bindings need pybind11, which is not installed: they cannot be built here, so no execution of them can be explored"}
checks, na = [], []
for p in props:
    i = p["id"]
    if i in CHECKS:
        c = CHECKS[i]
        checks.append(dict(property=i, quick_cmd=f"python3 run.py {i} --tier quick", thorough_cmd=f"python3 run.py {i} --tier thorough",
            technique=c.get("technique", "exhaustive bounded exploration of operation sequences on the real code in lock-step with a reference model (stateless model checking)"),
            level=c.get("level", "model_checking"),
            level_note=c.get("level_note", "Exhaustive within: " + c.get("bounds", "") + ". Trusts the SMP stand-in headers, the reference model and the sanitizers; nothing outside the alphabet is covered.")))
    else:
        na.append(dict(property=i, reason=NA.get(i, "no check built yet")))
json.dump(dict(version=1, setup_cmd="python3 -c \"import sys; sys.exit(0)\"", checks=checks, not_applicable=na,
    notes="Every check rebuilds from /repo's working tree (no hooks in /repo); see DESIGN.md."), open(V + "/MANIFEST.json", "w"), indent=1)
print(len(checks), "checks,", len(na), "not claimed")
