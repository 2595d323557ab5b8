#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from tools/props.py and fvm/plans.py."""
import json
import os
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
sys.path.insert(0, os.path.join(HERE, "tools"))
from fvm.plans import PLANS
from props import PROPS

assert len({p["id"] for p in PROPS}) == len(PROPS)
for p in PROPS:
    assert len(p["title"]) <= 80, p["id"]
have = [p for p in PROPS if p["id"] in PLANS]
missing = [p["id"] for p in PROPS if p["id"] not in PLANS]
with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
    for p in have:
        f.write(json.dumps(p) + "\n")
man = {
    "version": 1,
    "setup_cmd": "python3 run.py --selftest",
    "checks": [
        {
            "property": p["id"],
            "quick_cmd": f"python3 run.py {p['id']} --tier quick",
            "thorough_cmd": f"python3 run.py {p['id']} --tier thorough",
            "technique": PLANS[p["id"]]["technique"],
            "level": PLANS[p["id"]]["level"],
            "level_note": PLANS[p["id"]]["level_note"],
        }
        for p in have
    ],
    "not_applicable": [],
    "notes": "No hooks: every monitor wraps the public interface from outside, or hands recording functions in.",
}
with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
    json.dump(man, f, indent=1)
    f.write("\n")
print(len(have), "claimed; without a check:", missing)
