#!/usr/bin/env python3
"""Writes MANIFEST.json from the plan."""
import json
import os

from plan import NOTES, PLAN

HERE = os.path.dirname(os.path.abspath(__file__))
with open(os.path.join(HERE, "properties.jsonl")) as f:
    ids = [json.loads(line)["id"] for line in f if line.strip()]
checks = []
for i in ids:
    if i in PLAN:
        p = PLAN[i]
        checks.append({"property": i, "quick_cmd": "python3 check.py %s --tier quick" % i, "thorough_cmd": "python3 check.py %s --tier thorough" % i,
                       "evidence_file": "evidence/%s.json" % i, "technique": p["technique"], "level": p["level"], "level_note": p["note"] or NOTES})
m = {"version": 1, "setup_cmd": "python3 check.py --setup", "checks": checks,
     "not_applicable": [{"property": i, "reason": "its specification is still being built"} for i in ids if i not in PLAN],
     "notes": "The specifications are in spec/ (TLA+, TLC); see DESIGN.md. No hooks in the code under test are needed."}
with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
