#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the plan."""
import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(HERE, "lib"))
import plan
props = [json.loads(l) for l in open(os.path.join(HERE, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    if i in plan.PROPS:
        e = plan.PROPS[i]
        checks.append({"property": i, "quick_cmd": "./check.py " + i, "thorough_cmd": "./check.py %s --thorough" % i,
                       "technique": e.get("technique", plan.TECH_SESSION), "level": "model_checking",
                       "level_note": e.get("note", plan.NOTE_SESSION)})
    else:
        na.append({"property": i, "reason": "no check has been built for it yet"})
m = {"version": 1, "setup_cmd": "./setup.sh", "checks": checks, "not_applicable": na,
     "notes": "No hooks: everything is observed at the public interface (a transport, a spawner and a timer of the harness's own). "
              "known-findings.txt lists defects found."}
json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(HERE, "MANIFEST.json"), "a").write("\n")
