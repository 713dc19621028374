#!/usr/bin/env python3
"""Which checks notice which planted bugs: applies each patch to a scratch copy and runs every check on it (LCX_REPO)."""
import json
import os
import shutil
import subprocess
import sys
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
man = json.load(open(VERIF + "/MANIFEST.json"))
props = [c["property"] for c in man["checks"]] if "checks" in man else []
allp = "--all" in sys.argv
ids = [a for a in sys.argv[1:] if not a.startswith("-")] or sorted(os.listdir(VERIF + "/seeded"))


def one(i):
    s = f"{VERIF}/seeded/{i}"
    meta = json.load(open(s + "/meta.json"))
    d = f"/tmp/w/bugs/{i}"
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs("/tmp/w/bugs", exist_ok=True)
    subprocess.run(["git", "clone", "-q", "/repo", d], check=True)
    r = subprocess.run(["git", "-C", d, "apply", s + "/patch.diff"], capture_output=True, text=True)
    if r.returncode:
        return i, meta["property"], "NOAPPLY " + r.stderr[:100]
    hit = []
    for p in (props if allp else [meta["property"]]):
        r = subprocess.run([sys.executable, VERIF + "/run_check.py", p], capture_output=True, text=True,
                           env={**os.environ, "LCX_REPO": d, "LCX_JOBS": "2", "LCX_EVIDENCE": "/tmp/w/bugs/ev"})
        if r.returncode == 1:
            hit.append(p)
    shutil.rmtree(d, ignore_errors=True)
    return i, meta["property"], ("caught by " + ",".join(hit)) if hit else "MISSED"


with ThreadPoolExecutor(5) as ex:
    for r in ex.map(one, ids):
        print(*r, flush=True)
