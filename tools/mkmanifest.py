#!/usr/bin/env python3
"""Writes MANIFEST.json from the list of properties and checks."""
import json, os
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
import sys
sys.path.insert(0, H)
import checks
ids = [json.loads(l)["id"] for l in open(H + "/properties.jsonl")]
out = {"version": 1, "setup_cmd": "python3 run.py build", "checks": [], "not_applicable": []}
for i in ids:
    if i in checks.TECH:
        out["checks"].append({"property": i, "quick_cmd": "python3 run.py %s quick" % i, "thorough_cmd": "python3 run.py %s thorough" % i,
                              "technique": checks.TECH[i][0], "level": "model_checking", "level_note": checks.TECH[i][1]})
    else:
        out["not_applicable"].append({"property": i, "reason": checks.NOT_APPLICABLE.get(i, "specification not written yet")})
json.dump(out, open(H + "/MANIFEST.json", "w"), indent=1)
