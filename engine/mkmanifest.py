"""Regenerates MANIFEST.json and properties.jsonl from engine/catalogue.py."""
import json
import os
import sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import catalogue
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
m = {"version": 1, "setup_cmd": "bash setup.sh", "checks": [], "not_applicable": [],
     "notes": "No hooks: the analyses read /repo's sources as they are. See DESIGN.md."}
with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for p in catalogue.PROPS:
        f.write(json.dumps({k: p[k] for k in ("id", "title", "statement", "quantifier",
                                              "why_tests_cant", "anchors")}) + "\n")
        assert len(p["title"]) <= 80, p["id"]
        if p.get("na"):
            m["not_applicable"].append({"property": p["id"], "reason": p["na"]})
        else:
            m["checks"].append({"property": p["id"], "quick_cmd": p["cmd"], "thorough_cmd": p["cmd"],
                                "technique": p["technique"], "level": "other",
                                "level_note": p["note"]})
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
