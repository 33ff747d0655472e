#!/usr/bin/env python3
"""Writes MANIFEST.json from tools/props.py and properties.jsonl."""
import json
import os
import sys
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
from props import PROPS  # noqa: E402
ps = [json.loads(x) for x in open(os.path.join(HERE, "..", "properties.jsonl"))]
m = {"version": 1, "setup_cmd": "python3 check.py setup", "checks": [], "not_applicable": [],
     "notes": "No hooks: all checks are black box, through the crate's public API. known-findings.txt lists findings and fixed defects."}
for p in ps:
    i = p["id"]
    if i in PROPS:
        m["checks"].append({"property": i, "quick_cmd": "VERIF_TIER=quick python3 check.py " + i,
                            "thorough_cmd": "VERIF_TIER=thorough python3 check.py " + i,
                            "evidence_file": "evidence/%s.json" % i,
                            "technique": PROPS[i].get("technique", "TLA+ specification: TLC model checking on the 4x4 board, TLC validation of traces recorded from the library on the 9x9 board"),
                            "level": "model_checking", "level_note": PROPS[i].get("note", "")})
    else:
        m["not_applicable"].append({"property": i, "reason": "no check built yet"})
json.dump(m, open(os.path.join(HERE, "..", "MANIFEST.json"), "w"), indent=1)
