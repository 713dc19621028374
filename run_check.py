#!/usr/bin/env python3
"""Run one static check: python3 run_check.py C01 [--tier quick|thorough] [-v]"""

import argparse
import collections
import fnmatch
import importlib
import json
import os
import sys
import time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
sys.setrecursionlimit(20000)

from lcx.ctx import Cx  # noqa: E402
from lcx.prog import AnalysisBroken, Program  # noqa: E402


def known(prop):
    with open(os.path.join(HERE, "known_findings.json")) as fh:
        return [k for k in json.load(fh) if k["property"] == prop and k["status"] == "known"]


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("-v", action="store_true")
    a = ap.parse_args()
    t0 = time.time()
    mod = importlib.import_module(f"lcx.checks.{a.prop.lower()}")
    broken = []
    try:
        cx = Cx(a.prop, a.tier, Program())
        mod.run(cx)
        cx.flush()
        broken = cx.broken
    except AnalysisBroken as e:
        print(f"BROKEN property={a.prop}: {e}")
        return 2
    ks = known(a.prop)
    viol, found = [], []
    for v, rule, key, where, msg in cx.obs:
        if v != "bad":
            continue
        k = next((k for k in ks if fnmatch.fnmatchcase(key, k["key"])), None)
        if k is not None:
            found.append((k, key, where, msg))
        else:
            viol.append({"rule": rule, "key": key, "where": where, "message": msg})
    cnt = collections.Counter(o[0] for o in cx.obs)
    perrule = collections.defaultdict(collections.Counter)
    for o in cx.obs:
        perrule[o[1]][o[0]] += 1
    ev = {
        "property": a.prop,
        "tier": a.tier if a.tier in ("quick", "thorough") else "quick",
        "seed": int(os.environ.get("VERIF_SEED", "1")),
        "level": getattr(mod, "LEVEL", "other"),
        "coverage": {
            "explanation": getattr(mod, "EXPLAIN", mod.__doc__ or "").strip(),
            "modules_parsed": len(cx.P.mods),
            "functions_analysed": len(cx.funcs),
            "events_inspected": cx.nevents,
            "terms_compared": cx.nterms,
            "rules": len(cx.rules),
            "obligations": len(cx.obs),
            "discharged": cnt["ok"],
            "violated": cnt["bad"],
            "undecided": cnt["unknown"],
            "known_findings": len(found),
            "rule_texts": {k: {"rule": t, **perrule[k]} for k, t in sorted(cx.rules.items())[:400]},
            "undecided_samples": [f"{o[1]}|{o[2]}|{o[3]}|{o[4][:160]}" for o in cx.obs if o[0] == "unknown"][:25],
        },
        "wall_s": round(time.time() - t0, 2),
        "assumptions": [
            "third-party callees (numpy, scipy, astropy, pandas, sncosmo, ...) behave as their documentation says",
            "an obligation is reported only on positive evidence; undecided obligations are counted, not alarmed",
        ] + list(getattr(mod, "ASSUME", [])),
        "violations": [f"{v['where']}: {v['message']}" for v in viol],
    }
    evdir = os.environ.get("LCX_EVIDENCE") or os.path.join(HERE, "evidence")
    os.makedirs(evdir, exist_ok=True)
    with open(os.path.join(evdir, f"{a.prop}.json"), "w") as fh:
        json.dump(ev, fh, indent=1)
    print(f"{a.prop}: {len(cx.rules)} rules, {len(cx.funcs)} functions, {cx.nevents} events, {cx.nterms} terms; obligations "
          f"{cnt['ok']} discharged, {cnt['bad']} violated, {cnt['unknown']} undecided; {ev['wall_s']} s")
    if a.v:
        for o in cx.obs:
            if o[0] == "unknown":
                print("  undecided:", o[1], o[2], o[3], o[4][:300])
    shown = set()
    for k, key, where, msg in found:
        if k["key"] not in shown:
            shown.add(k["key"])
            print(f"KNOWN-FINDING: property={a.prop} {k['what']} [{where}]")
    if viol:
        out = os.path.join(HERE, "out")
        os.makedirs(out, exist_ok=True)
        rp = os.path.join(out, f"{a.prop}.json")
        with open(rp, "w") as fh:
            json.dump(viol, fh, indent=1)
        for v in viol[:40]:
            print(f"  {v['where']}: [{v['rule']}] {v['message']}")
        print(f"VIOLATION property={a.prop} replay={rp}")
        return 1
    if broken:
        for b in broken:
            print(f"not found, counted as undecided: {b}")
        return 0 if cnt["ok"] else 2
    return 0


if __name__ == "__main__":
    sys.exit(main())
