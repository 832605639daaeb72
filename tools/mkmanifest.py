#!/usr/bin/env python3
"""Writes MANIFEST.json from what vlib/props.py claims and properties.jsonl lists."""
import json, os, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
sys.dont_write_bytecode = True
from vlib import props

checks, na = [], []
for line in open(os.path.join(ROOT, "properties.jsonl")):
    p = json.loads(line)
    i = p["id"]
    if i in props.RUN:
        tech, note = props.TEXT[i]
        checks.append({"property": i, "quick_cmd": "bin/check %s quick" % i,
                       "thorough_cmd": "bin/check %s thorough" % i,
                       "technique": tech, "level": "model_checking", "level_note": note})
    else:
        na.append({"property": i, "reason": "check not built yet"})
m = {"version": 1, "setup_cmd": "bin/setup", "checks": checks, "not_applicable": na,
     "notes": "TLA+ specifications in spec/, checked with TLC and bound to the code by trace validation; see DESIGN.md. No hooks in /repo."}
with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
