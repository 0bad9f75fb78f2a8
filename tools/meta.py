#!/usr/bin/env python3
"""Regenerate properties.jsonl and MANIFEST.json from tools/props.py (documentation only; no check reads them)."""
import json
import os
import sys

root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(root, "tools"))
from props import PROPS, NOT_APPLICABLE, NOTES  # noqa

with open(os.path.join(root, "properties.jsonl"), "w") as f:
    for p in PROPS:
        f.write(json.dumps({
            "id": p["id"], "title": p["title"], "statement": p["statement"],
            "quantifier": {"over": p["over"], "text": p["text"]},
            "why_tests_cant": p["why"],
            "anchors": {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mech"]],
                        "observe_at": p.get("observe", []), "hook_needed": None}}) + "\n")
na = {i for i, _ in NOT_APPLICABLE}
checks = []
for p in PROPS:
    i = p["id"]
    if i in na or not os.path.exists(os.path.join(root, "checks", i.lower() + ".py")):
        continue
    checks.append({"property": i, "quick_cmd": "./run.py %s --tier quick" % i,
                   "thorough_cmd": "./run.py %s --tier thorough" % i,
                   "evidence_file": "evidence/%s.json" % i,
                   "technique": "symbolic execution of the real Python code, verification conditions decided by z3",
                   "level": "model_checking", "level_note": p["note"]})
m = {"version": 1, "setup_cmd": "./setup.sh", "checks": checks,
     "not_applicable": [{"property": i, "reason": r} for i, r in NOT_APPLICABLE], "notes": NOTES}
with open(os.path.join(root, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
print(len(PROPS), "properties,", len(checks), "checks,", len(na), "not applicable")
missing = [p["id"] for p in PROPS if p["id"] not in na and p["id"] not in {c["property"] for c in checks}]
if missing:
    print("no check yet:", missing)
