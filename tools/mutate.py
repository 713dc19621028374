#!/usr/bin/env python3
"""Mutation sweep used while developing the checks (not a check): mutate one function at a time in memory, run one check, list survivors.

usage: mutate.py PROP path/under/src/lightcurvelynx.py [function-or-Class.method ...] [--max N] [--keep]
"""
import ast
import collections
import copy
import importlib
import os
import random
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.dirname(HERE))
sys.setrecursionlimit(20000)
from lcx import prog  # noqa: E402
from lcx.ctx import Cx  # noqa: E402

SWAP = {ast.Add: ast.Sub, ast.Sub: ast.Add, ast.Mult: ast.Div, ast.Div: ast.Mult, ast.Lt: ast.LtE, ast.LtE: ast.Lt, ast.Gt: ast.GtE, ast.GtE: ast.Gt,
        ast.Eq: ast.NotEq, ast.NotEq: ast.Eq, ast.Is: ast.IsNot, ast.IsNot: ast.Is, ast.In: ast.NotIn, ast.NotIn: ast.In, ast.And: ast.Or, ast.Or: ast.And,
        ast.BitAnd: ast.BitOr, ast.BitOr: ast.BitAnd, ast.FloorDiv: ast.Div, ast.Mod: ast.FloorDiv, ast.Pow: ast.Mult}


def targets(tree, names):
    for n in ast.walk(tree):
        if isinstance(n, ast.ClassDef):
            for m in n.body:
                if isinstance(m, ast.FunctionDef) and (not names or f"{n.name}.{m.name}" in names or m.name in names or n.name in names):
                    yield f"{n.name}.{m.name}", m
    for n in tree.body:
        if isinstance(n, ast.FunctionDef) and (not names or n.name in names):
            yield n.name, n


def strip_doc(fn):
    b = fn.body
    if b and isinstance(b[0], ast.Expr) and isinstance(b[0].value, ast.Constant):
        return b[1:]
    return b


def sites(fn):
    for st in strip_doc(fn):
        for n in ast.walk(st):
            if isinstance(n, ast.Raise):
                continue
            yield n


def mutations(n):
    """yield (description, apply) where apply(node) edits a deep copy in place."""
    if isinstance(n, (ast.BinOp, ast.AugAssign, ast.BoolOp)):
        t = type(n.op)
        if t in SWAP:
            yield f"{t.__name__}->{SWAP[t].__name__}", lambda m: setattr(m, "op", SWAP[t]())
    if isinstance(n, ast.Compare) and type(n.ops[0]) in SWAP:
        t = type(n.ops[0])
        yield f"{t.__name__}->{SWAP[t].__name__}", lambda m: m.ops.__setitem__(0, SWAP[t]())
        inv = {ast.Lt: ast.GtE, ast.LtE: ast.Gt, ast.Gt: ast.LtE, ast.GtE: ast.Lt}
        if t in inv:
            yield f"{t.__name__}->{inv[t].__name__}", lambda m: m.ops.__setitem__(0, inv[t]())
    if isinstance(n, ast.Constant) and isinstance(n.value, (int, float)) and not isinstance(n.value, bool):
        yield f"{n.value}->+1", lambda m: setattr(m, "value", m.value + 1)
    if isinstance(n, ast.Constant) and isinstance(n.value, bool):
        yield f"{n.value}->not", lambda m: setattr(m, "value", not m.value)
    if isinstance(n, ast.Call):
        for i, k in enumerate(n.keywords):
            yield f"drop kw {k.arg}", lambda m, i=i: m.keywords.pop(i)
        if len(n.args) >= 2:
            yield "swap args", lambda m: m.args.__setitem__(slice(0, 2), [m.args[1], m.args[0]])
    if isinstance(n, ast.UnaryOp) and isinstance(n.op, (ast.Not, ast.USub, ast.Invert)):
        yield "drop unary", lambda m: setattr(m, "op", ast.UAdd()) if not isinstance(m.op, ast.Not) else (setattr(m, "operand", ast.UnaryOp(ast.Not(), m.operand)))
    if isinstance(n, ast.If):
        yield "if False", lambda m: setattr(m, "test", ast.Constant(False))
        yield "if True", lambda m: setattr(m, "test", ast.Constant(True))
    if isinstance(n, (ast.Expr, ast.Assign, ast.AugAssign)) and not (isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant)):
        if isinstance(n, ast.Assign) and isinstance(n.targets[0], ast.Name):
            return
        yield "delete stmt", None


def run_tests(rel, src):
    """True when the existing tests notice (run in a scratch copy)."""
    import json
    import shutil
    import subprocess
    d = f"/tmp/w/mt/{os.getpid()}"
    if not os.path.isdir(d):
        os.makedirs("/tmp/w/mt", exist_ok=True)
        shutil.copytree("/repo", d, ignore=shutil.ignore_patterns(".git"))
    full = os.path.join(d, rel)
    keep = open(full).read()
    with open(full, "w") as fh:
        fh.write(src)
    sub = rel.split("/")[2:-1]
    sets = ["tests/lightcurvelynx/" + "/".join(sub)] if sub else []
    if sub != ["models"]:
        sets.append("tests/lightcurvelynx/models/test_physical_models.py")
    import glob
    sets += sorted(os.path.relpath(x, d) for x in glob.glob(d + "/tests/lightcurvelynx/test_*.py"))
    try:
        r = subprocess.run(["/opt/venv/bin/python", "-m", "pytest", "-q", "-p", "no:cacheprovider", "-p", "no:xdist", "--timeout=120", "-o", "addopts=", "--tb=no", "-rfE", *sets],
                           cwd=d, env={**os.environ, "PYTHONPATH": d + "/src", "PYTHONDONTWRITEBYTECODE": "1", "OMP_NUM_THREADS": "1"}, capture_output=True, text=True, timeout=900)
        failed = set()
        for ln in r.stdout.split("\n"):
            if ln.startswith(("FAILED ", "ERROR ")):
                failed.add(ln.split()[1].replace(".py::", "::").replace("/", "."))
        stable = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
        if r.returncode not in (0, 1):
            return True
        return any(f in stable or f.split("[")[0] in {x.split("[")[0] for x in stable} or "::" not in f for f in failed)
    except subprocess.TimeoutExpired:
        return True
    finally:
        with open(full, "w") as fh:
            fh.write(keep)


def main():
    args = [a for a in sys.argv[1:] if not a.startswith("--")]
    mx = next((int(a.split("=")[1]) for a in sys.argv if a.startswith("--max=")), 60)
    prop, rel, names = args[0], args[1], set(args[2:])
    tests = "--tests" in sys.argv
    base = prog.Program()
    modname = next(m for m in base.mods if base.mods[m].rel.endswith(rel))
    mod = base.mods[modname]
    chk = importlib.import_module("lcx.checks." + prop.lower())

    def run(src):
        orig = open

        class PP(prog.Program):
            pass

        import builtins
        import io

        def fake(p, *a, **k):
            if os.path.abspath(str(p)) == os.path.abspath(mod.path):
                return io.StringIO(src)
            return orig(p, *a, **k)

        builtins.open = fake
        try:
            P = prog.Program()
        finally:
            builtins.open = orig
        cx = Cx(prop, "quick", P)
        chk.run(cx)
        cx.flush(jobs=1)
        return cx

    def bads(cx):
        return {o[2] for o in cx.obs if o[0] == "bad"}

    b0 = run(mod.src)
    base_bad = bads(b0)
    muts = []
    tree = ast.parse(mod.src)
    for name, fn in targets(tree, names):
        for i, n in enumerate(sites(fn)):
            for j, (d, ap) in enumerate(mutations(n)):
                muts.append((name, i, j, d, n.lineno))
    random.Random(1).shuffle(muts)
    muts = muts[:mx]
    res = []
    kids = []
    # fork pool
    nproc = os.cpu_count() or 1
    chunks = [muts[k::nproc] for k in range(nproc)]
    import pickle
    for ch in chunks:
        r, w = os.pipe()
        pid = os.fork()
        if pid == 0:
            os.close(r)
            out = []
            for name, i, j, d, ln in ch:
                t2 = ast.parse(mod.src)
                fn = dict(targets(t2, names))[name]
                node = list(sites(fn))[i]
                d2, ap = list(mutations(node))[j]
                before = ast.unparse(node)[:90].split("\n")[0]
                if ap is None:
                    for p in ast.walk(fn):
                        for fld in ("body", "orelse", "finalbody"):
                            b = getattr(p, fld, None)
                            if isinstance(b, list) and node in b:
                                b[b.index(node)] = ast.Pass()
                else:
                    ap(node)
                ast.fix_missing_locations(t2)
                try:
                    src2 = ast.unparse(t2)
                    cx = run(src2)
                    nb = bads(cx) - base_bad
                    br = len(cx.broken)
                except Exception as e:
                    nb, br = {f"EXC {e!r}"[:100]}, 0
                if tests and not nb and "EXC" not in str(nb):
                    if run_tests(mod.rel, src2):
                        nb = {"(tests)"}
                out.append((name, ln, d2, before, sorted(nb)[:2], br))
            import shutil
            shutil.rmtree(f"/tmp/w/mt/{os.getpid()}", ignore_errors=True)
            with os.fdopen(w, "wb") as fh:
                fh.write(pickle.dumps(out))
            os._exit(0)
        os.close(w)
        kids.append((pid, r))
    for pid, r in kids:
        with os.fdopen(r, "rb") as fh:
            res += pickle.loads(fh.read())
        os.waitpid(pid, 0)
    c = collections.Counter()
    for name, ln, d, before, nb, br in sorted(res, key=lambda x: (x[0], x[1])):
        c["tests" if nb == ["(tests)"] else "killed" if nb else "alive"] += 1
        if not nb or "--all" in sys.argv:
            print(("KILLED " if nb else "alive  ") + f"{name}:{ln} [{d}] {before} {nb}")
    print(prop, dict(c))


main()
