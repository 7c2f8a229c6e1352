#!/usr/bin/env python3
"""Writes MANIFEST.json from tools/props.py (run by hand)."""
import json, os, sys
sys.path.insert(0, os.path.dirname(__file__))
from props import PROPS, TECH, NOTE, NOT_APPLICABLE
V = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
ids = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
checks = []
na = []
for i in ids:
    if i in PROPS:
        checks.append({"property": i, "quick_cmd": f"./check {i}", "thorough_cmd": f"VERIF_TIER=thorough ./check {i}",
                       "technique": TECH[i], "level": "exploration", "level_note": NOTE[i]})
    else:
        na.append({"property": i, "reason": NOT_APPLICABLE.get(i, "no check yet")})
json.dump({"version": 1, "setup_cmd": "./setup.sh", "checks": checks, "not_applicable": na,
           "notes": "Black-box monitors over the exported API; /repo has no hooks, only fix: commits. Known findings and repaired defects: known_findings.txt."},
          open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks;", len(na), "not claimed")
