#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from tools/props/*.json-like python tables (tools/props.py)."""
import json, os, sys
here = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, here)
from props import PROPS, NA
root = os.path.dirname(here)
with open(root + "/properties.jsonl", "w") as f:
    for p in PROPS + NA:
        o = {k: p[k] for k in ("id", "title", "statement", "quantifier", "why_tests_cant", "anchors")}
        assert len(o["title"]) <= 80, o["title"]
        f.write(json.dumps(o) + "\n")
m = {"version": 1,
     "setup_cmd": "python3 -c \"import sys; sys.path.insert(0,'lib'); import model; model.load()\"",
     "checks": [{"property": p["id"], "quick_cmd": "./check %s" % p["id"], "thorough_cmd": "./check %s thorough" % p["id"],
                 "technique": p["technique"], "level": "other", "level_note": p["level_note"]} for p in PROPS],
     "not_applicable": [{"property": p["id"], "reason": p["reason"]} for p in NA],
     "notes": "All checks read the resolved syntax trees of /repo's current sources (extracted by tool/extract.cpp with libTooling) and never run the code."}
json.dump(m, open(root + "/MANIFEST.json", "w"), indent=1)
ids = [p["id"] for p in PROPS + NA]
assert len(ids) == len(set(ids))
for p in PROPS:
    assert os.path.exists(root + "/checks/%s.py" % p["id"].lower()), p["id"]
print(len(PROPS), "claimed,", len(NA), "not applicable")
