#!/usr/bin/env python3
"""Write properties.jsonl and MANIFEST.json from tools/props.py."""
import json
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
from props import NA, NOTES, PROPS  # noqa: E402

ROOT = os.path.dirname(HERE)
keys = ("id", "title", "statement", "quantifier", "why_tests_cant", "anchors")
rows = []
for p in [*PROPS, *NA]:
    r = {"id": p["id"], "title": p["title"], "statement": p["statement"], "quantifier": {"over": p["over"], "text": p["text"]},
         "why_tests_cant": p["why"], "anchors": {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mech"]]}}
    assert len(r["title"]) <= 80, r["id"]
    rows.append(r)
with open(os.path.join(ROOT, "properties.jsonl"), "w") as fh:
    for r in sorted(rows, key=lambda r: r["id"]):
        fh.write(json.dumps(r) + "\n")
man = {"version": 1, "setup_cmd": "python3 -c \"import ast, sys; sys.exit(0 if sys.version_info >= (3, 10) else 1)\"", "checks": [], "not_applicable": [], "notes": NOTES}
for p in PROPS:
    man["checks"].append({"property": p["id"], "quick_cmd": f"python3 run_check.py {p['id']} --tier quick",
                          "thorough_cmd": f"python3 run_check.py {p['id']} --tier thorough",
                          "technique": p["technique"], "level": p.get("level", "other"), "level_note": p["note"]})
for p in NA:
    man["not_applicable"].append({"property": p["id"], "reason": p["reason"]})
with open(os.path.join(ROOT, "MANIFEST.json"), "w") as fh:
    json.dump(man, fh, indent=1)
    fh.write("\n")
