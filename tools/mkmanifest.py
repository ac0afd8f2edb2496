#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from the property list and the settings of the checks."""
import json, os, sys
V = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
sys.path.insert(0, V)
from dst.props import META
from tools_notes import NOTE, TECH, REASON

props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
M = {"version": 1, "setup_cmd": "true", "checks": [], "not_applicable": [],
     "notes": "Pure Python: checks import /repo/src directly, nothing is built and no hook is needed. Replay: ./check replays/<file>.json"}
for p in props:
    i = p["id"]
    if i in META and i in NOTE:
        M["checks"].append({"property": i, "quick_cmd": "./check %s --tier quick" % i, "thorough_cmd": "./check %s --tier thorough" % i,
                            "evidence_file": "evidence/%s.json" % i, "technique": TECH[i], "level": META[i]["level"], "level_note": NOTE[i]})
    else:
        M["not_applicable"].append({"property": i, "reason": REASON.get(i, "no check yet")})
json.dump(M, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(M["checks"]), "checks", len(M["not_applicable"]), "n/a")
