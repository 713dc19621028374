#!/usr/bin/env python3
"""Make and verify planted bugs in scratch copies (not a check).

usage: plant.py specs.py   where specs.py defines SEEDS = [dict(id, prop, edits=[(file, old, new), ...], demo, needs, breaks)]
A bug is kept in seeded/<id> only when it applies, the stable tests pass with it, and its demo passes without and fails with it.
"""
import json
import multiprocessing
import os
import runpy
import shutil
import subprocess
import sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SH = '#!/bin/bash\ncd /repo 2>/dev/null\nexec /opt/venv/bin/python "$(dirname "$0")/demo.py"\n'


def sh(*a, **k):
    return subprocess.run(a, capture_output=True, text=True, **k)


def one(s):
    d = f"/tmp/w/plant/{s['id']}"
    shutil.rmtree(d, ignore_errors=True)
    sh("git", "clone", "-q", "/repo", d)
    shutil.copy("/repo/src/lightcurvelynx/_version.py", d + "/src/lightcurvelynx/_version.py") if os.path.exists("/repo/src/lightcurvelynx/_version.py") else None
    env = {**os.environ, "PYTHONPATH": d + "/src", "PYTHONDONTWRITEBYTECODE": "1", "OMP_NUM_THREADS": "1"}
    try:
        demo = d + ".demo.py"
        open(demo, "w").write(s["demo"])
        r = sh("/opt/venv/bin/python", demo, cwd=d, env=env, timeout=290)
        if r.returncode:
            return s["id"], "DEMO FAILS ON CLEAN " + (r.stdout + r.stderr)[-600:]
        for f, old, new in s["edits"]:
            p = f"{d}/src/lightcurvelynx/{f}"
            t = open(p).read()
            if t.count(old) != 1:
                return s["id"], f"edit matches {t.count(old)} times: {old[:60]!r}"
            open(p, "w").write(t.replace(old, new))
        diff = sh("git", "-C", d, "diff").stdout
        r = sh("/opt/venv/bin/python", demo, cwd=d, env=env, timeout=290)
        if not r.returncode:
            return s["id"], "DEMO PASSES WITH BUG"
        why = (r.stdout + r.stderr).strip().split("\n")[-1][:150]
        r = sh("/opt/venv/bin/python", "-m", "pytest", "-q", "-p", "no:cacheprovider", "-p", "no:xdist", "--timeout=300", "--continue-on-collection-errors", "--tb=no", "-rfE",
               "-o", "junit_family=xunit2", f"--junitxml={d}.xml", f"--basetemp={d}.tmp", cwd=d, env=env)
        sh("/opt/venv/bin/python", "/opt/vp/results.py", d + ".json", f"junit:{d}.xml")
        stable = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
        got = json.load(open(d + ".json"))
        ok = set(got.get("passed") or [k for k, v in got.items() if v == "passed"])
        lost = sorted(stable - ok)
        if lost:
            return s["id"], f"TESTS LOSE {len(lost)}: {lost[:4]}"
        out = f"{VERIF}/seeded/{s['id']}"
        os.makedirs(out, exist_ok=True)
        open(out + "/patch.diff", "w").write(diff)
        open(out + "/demo.sh", "w").write(SH)
        os.chmod(out + "/demo.sh", 0o755)
        open(out + "/demo.py", "w").write(s["demo"])
        json.dump({"property": s["prop"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(out + "/meta.json", "w"), indent=1)
        return s["id"], "kept: " + why
    finally:
        for x in (d, d + ".tmp"):
            shutil.rmtree(x, ignore_errors=True)
        for x in (".demo.py", ".xml", ".json"):
            if os.path.exists(d + x):
                os.remove(d + x)


if __name__ == "__main__":
    seeds = runpy.run_path(sys.argv[1])["SEEDS"]
    only = set(sys.argv[2:])
    os.makedirs("/tmp/w/plant", exist_ok=True)
    with multiprocessing.Pool(8) as p:
        for i, w in p.imap_unordered(one, [s for s in seeds if not only or s["id"] in only]):
            print(i, w, flush=True)
