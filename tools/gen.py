#!/usr/bin/env python3
"""Generates /verif/properties.jsonl and /verif/MANIFEST.json from the table in tools/props.py."""
import json, os, sys
here = os.path.dirname(os.path.abspath(__file__))
root = os.path.dirname(here)
sys.path.insert(0, here)
from props import PROPS

TECH = "contract-based deductive verification: govc checks contracts on the real Go functions, obligations discharged by z3/cvc5"
with open(os.path.join(root, "properties.jsonl"), "w") as f:
    for p in PROPS:
        f.write(json.dumps({
            "id": p["id"], "title": p["title"], "statement": p["statement"],
            "quantifier": {"over": p["over"], "text": p["over_text"]},
            "why_tests_cant": p["why"],
            "anchors": {
                "files": p["files"],
                "mechanism": [{"name": n, "where": w} for n, w in p["mech"]],
                **({"state": [{"name": n, "meaning": m, "where": w} for n, m, w in p["state"]]} if p.get("state") else {}),
                "observe_at": p.get("observe", []),
                "hook_needed": None,
            }}) + "\n")
checks, na = [], []
for p in PROPS:
    if p.get("claimed"):
        checks.append({
            "property": p["id"],
            "quick_cmd": f"./check.sh {p['id']} quick",
            "thorough_cmd": f"./check.sh {p['id']} thorough",
            "technique": p.get("technique", TECH),
            "level": p.get("level", "proof"),
            "level_note": p["level_note"],
        })
    else:
        na.append({"property": p["id"], "reason": p.get("na", "no check built yet")})
m = {"version": 1, "setup_cmd": "./build.sh", "checks": checks, "not_applicable": na,
     "notes": "No hooks in /repo: the contracts live in /verif/contracts and are matched by name to the functions govc loads from /repo's working tree on every run."}
with open(os.path.join(root, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1); f.write("\n")
