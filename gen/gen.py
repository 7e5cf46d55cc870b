#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the list in props.py."""
import json, os, sys
here = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, here)
from props import PROPS
root = os.path.dirname(here)
with open(os.path.join(root, "properties.jsonl"), "w") as f:
    for p in PROPS:
        q = {k: p[k] for k in ("id", "title", "statement", "quantifier", "why_tests_cant", "anchors")}
        assert len(q["title"]) <= 80, q["title"]
        f.write(json.dumps(q) + "\n")
m = {"version": 1, "setup_cmd": "./check.sh setup", "checks": [], "not_applicable": []}
for p in PROPS:
    if "na" in p:
        m["not_applicable"].append({"property": p["id"], "reason": p["na"]})
        continue
    m["checks"].append({
        "property": p["id"],
        "quick_cmd": "./check.sh %s quick" % p["id"],
        "thorough_cmd": "./check.sh %s thorough" % p["id"],
        "technique": p["technique"],
        "level": "other",
        "level_note": p["level_note"],
    })
m["notes"] = "All checks are static: one analyzer (analyzer/) type-checks /repo's working tree, builds SSA and decides each property from it; nothing of /repo is executed. Confirmed defects are in KNOWN_FINDINGS.txt."
with open(os.path.join(root, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
