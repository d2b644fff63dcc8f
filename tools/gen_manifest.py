#!/usr/bin/env python3
"""Writes MANIFEST.json from the table below (run after adding a check)."""
import json, os
D = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
T = json.load(open(os.path.join(D, "tools", "checks.json")))
checks = []
for i, (tech, level, note) in sorted(T.items()):
    checks.append({
        "property": i,
        "quick_cmd": f"./check.sh {i}",
        "thorough_cmd": f"VERIF_TIER=thorough ./check.sh {i}",
        "technique": tech, "level": level, "level_note": note,
    })
props = [json.loads(l)["id"] for l in open(os.path.join(D, "properties.jsonl"))]
na = [{"property": p, "reason": "check still under construction"} for p in props if p not in T]
m = {"version": 1, "setup_cmd": "./check.sh --build", "checks": checks, "not_applicable": na,
     "notes": "No hooks in /repo are needed: the monitors observe public values, Debug output, files and processes."}
json.dump(m, open(os.path.join(D, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks,", len(na), "not applicable")
