#!/usr/bin/env python3
"""Record a repaired defect: fixed.py PROP COMMIT 'what failed'."""
import json
import os
import sys

p = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "known_findings.json")
d = json.load(open(p))
prop, commit, what = sys.argv[1:4]
d.append({"property": prop, "status": "fixed", "commit": commit, "what": what, "line": f"fixed: property={prop} {commit} {what}"})
json.dump(d, open(p, "w"), indent=1)
