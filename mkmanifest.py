#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the table below."""
import json
import os

HERE = os.path.dirname(os.path.abspath(__file__))
NOTES = {}
exec(open(os.path.join(HERE, "manifest_notes.py")).read())

props = [json.loads(l) for l in open(os.path.join(HERE, "properties.jsonl"))]
checks, na = [], []
for p in props:
    pid = p["id"]
    if os.path.exists(os.path.join(HERE, "mc", "checks", pid.lower() + ".py")):
        tech, note = NOTES[pid]
        checks.append({
            "property": pid,
            "quick_cmd": "./check %s quick" % pid,
            "thorough_cmd": "./check %s thorough" % pid,
            "technique": tech,
            "level": "model_checking",
            "level_note": note + " " + COMMON,
        })
    else:
        na.append({"property": pid, "reason": "no check built yet"})
m = {"version": 1, "setup_cmd": "./setup.sh", "checks": checks, "not_applicable": na,
     "notes": "No hooks in /repo are needed: everything is observed through the public interface, "
              "module attributes replaced for the duration of a case, and streams handed in."}
json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(HERE, "MANIFEST.json"), "a").write("\n")
print(len(checks), "checks,", len(na), "not applicable")
