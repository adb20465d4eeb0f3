#!/usr/bin/env python3
"""Writes MANIFEST.json and properties.jsonl from props.py and proptext.py."""
import json
from props import PROPS
from proptext import TEXT, NA

checks = []
for p in sorted(PROPS):
    s = PROPS[p]
    checks.append({"property": p, "quick_cmd": "python3 check.py " + p, "technique": s["technique"],
                   "thorough_cmd": "python3 check.py " + p,
                   "level": s["level"], "level_note": s["level_note"]})
m = {"version": 1, "setup_cmd": "python3 -c 'import svlib; svlib.ensure_tool()'", "checks": checks,
     "not_applicable": [{"property": p, "reason": r} for p, r in sorted(NA.items())]}
json.dump(m, open("MANIFEST.json", "w"), indent=1)
with open("properties.jsonl", "w") as f:
    for t in sorted(TEXT, key=lambda t: t["id"]):
        assert len(t["title"]) <= 80, t["title"]
        assert t["id"] in PROPS or t["id"] in NA, t["id"]
        f.write(json.dumps(t) + "\n")
ids = {t["id"] for t in TEXT}
assert ids == set(PROPS) | set(NA), ids ^ (set(PROPS) | set(NA))
