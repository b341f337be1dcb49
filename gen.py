#!/usr/bin/env python3
"""Regenerates properties.jsonl and MANIFEST.json from props.py (authoring helper)."""
import json, os
V = os.path.dirname(os.path.abspath(__file__))
from props import PROPS, NOT_APPLICABLE
with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for p in PROPS:
        q = {k: p[k] for k in ("id", "title", "statement", "quantifier", "why_tests_cant", "anchors")}
        f.write(json.dumps(q) + "\n")
m = {"version": 1, "setup_cmd": "bash /verif/setup.sh", "checks": [], "not_applicable": []}
for p in PROPS:
    if p.get("na"):
        m["not_applicable"].append({"property": p["id"], "reason": p["na"]})
        continue
    m["checks"].append({"property": p["id"], "quick_cmd": "python3-vt /verif/check.py %s" % p["id"],
                        "thorough_cmd": "python3-vt /verif/check.py --tier thorough %s" % p["id"],
                        "technique": p["technique"], "level": p.get("level", "proof"), "level_note": p["level_note"]})
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
