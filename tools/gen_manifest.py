#!/usr/bin/env python3
"""Writes MANIFEST.json: a property is claimed when harness/config.json has an entry for it."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
conf = json.load(open(os.path.join(V, "harness", "config.json")))
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    if i in conf:
        checks.append({
            "property": i,
            "quick_cmd": "./run_check.py %s --tier quick" % i,
            "thorough_cmd": "./run_check.py %s --tier thorough" % i,
            "evidence_file": "evidence/%s.json" % i,
            "technique": conf[i]["technique"],
            "level": "exploration",
            "level_note": conf[i]["level_note"],
        })
    else:
        na.append({"property": i, "reason": conf.get("_na", {}).get(i, "no check built yet")})
m = {"version": 1, "setup_cmd": "./setup.sh", "checks": checks, "not_applicable": na,
     "notes": "Every check generates inputs or histories with the choice-sequence engine in engine/, decides them with an independent oracle, shrinks failures and writes a replay file (./run_check.py ID --replay FILE)."}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(V, "MANIFEST.json"), "a").write("\n")
