#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from the table of claimed checks."""
import json, os, subprocess
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
import sys
sys.path.insert(0, os.path.join(V, "tools"))
from checks_table import CHECKS, NOT_APPLICABLE, NOTES
ids = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
checks = []
for pid in ids:
    if pid not in CHECKS:
        continue
    tech, note = CHECKS[pid]
    checks.append({
        "property": pid,
        "quick_cmd": f"./check {pid} quick",
        "thorough_cmd": f"./check {pid} thorough",
        "evidence_file": f"evidence/{pid}.json",
        "technique": tech,
        "level": "model_checking",
        "level_note": note,
    })
na = [{"property": p, "reason": r} for p, r in NOT_APPLICABLE.items()]
for p in ids:
    if p not in CHECKS and p not in NOT_APPLICABLE:
        na.append({"property": p, "reason": "the check isn't built yet"})
m = {"version": 1, "setup_cmd": "./setup", "checks": checks, "not_applicable": na, "notes": NOTES}
open(os.path.join(V, "MANIFEST.json"), "w").write(json.dumps(m, indent=1) + "\n")
