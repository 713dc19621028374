"""C03: one consistent sample per node: graph sampling semantics."""

EXPLAIN = """Every method of ParameterSource, ParameterizedNode and FunctionNode is interpreted abstractly on a symbolic graph; the values it stores, the calls it makes on other nodes and
on the graph state and the inputs it rejects are compared with the reference semantics in lcx/refsrc/base_models.py."""

import ast

from ..ctx import loc
from ..interp import St
from ..norm import subterms
from ..refs import refrules


def run(cx):
    refrules(cx, "base_models", {
        "source": "each setter records its kind, source node and name exactly; parameters exist once and are set from what the caller gave",
        "nodes": "node names follow label, position and class; positions number each node of the graph once; parameters are read from the own node only",
        "sampling": "each node is sampled once per call, dependencies first, every parameter from its own source, computed outputs last, given values fixed",
        "function nodes": "a function node calls its function on its own sampled inputs and stores each output under its own name",
        "structure": "dependency graph and gradient tree list each parameter with the parameters it depends on",
    })
    cx.rule("one record", "all nodes of one sampling call share one record of the nodes already sampled", one_record, cx)
    cx.rule("constants", "a constant is repeated as a whole for each sample, whatever its shape", constants, cx)


def one_record(cx):
    """The dictionary of nodes already sampled is handed on itself: never a fresh one per node, nor a copy."""
    def fresh(e):
        if isinstance(e, (ast.Dict, ast.DictComp)):
            return True
        if isinstance(e, ast.Call):
            return ast.unparse(e.func) in ("dict", "copy.copy", "copy.deepcopy", "copy", "deepcopy") or (isinstance(e.func, ast.Attribute) and e.func.attr == "copy")
        return False

    n = 0
    for f in cx.P.funcs.values():
        calls, at = [], {}

        def walk(node, loops):
            for c in ast.iter_child_nodes(node):
                if isinstance(c, (ast.FunctionDef, ast.ClassDef, ast.Lambda)):
                    continue
                inner = loops + [c] if isinstance(c, (ast.For, ast.While, ast.ListComp, ast.GeneratorExp)) else loops
                if isinstance(c, ast.Call) and isinstance(c.func, ast.Attribute) and c.func.attr == "_sample_helper":
                    calls.append((c, loops))
                if isinstance(c, (ast.Assign, ast.AnnAssign)) and c.value is not None:
                    for x in c.targets if isinstance(c, ast.Assign) else [c.target]:
                        if isinstance(x, ast.Name):
                            at.setdefault(x.id, []).append((c.value, loops))
                walk(c, inner)

        walk(f.node, [])
        for c, loops in calls:
            e = next((k.value for k in c.keywords if k.arg == "seen_nodes"), c.args[1] if len(c.args) > 1 else None)
            key, where = f"{f.qual.split('lightcurvelynx.')[-1]}:{ast.unparse(c.func)}", f"{f.file}:{c.lineno}"
            n += 1
            why = None
            again = len(calls) > 1 or loops or "seen_nodes" in f.all_params
            if e is not None and fresh(e) and again:
                why = "is given a fresh record of the sampled nodes"
            elif isinstance(e, ast.Name):
                for v, lp in at.get(e.id, ()):
                    if fresh(v) and (any(x in loops for x in lp) or "seen_nodes" in f.all_params or len([x for x in at[e.id] if fresh(x[0])]) > 1):
                        why = f"is given {e.id}, created anew for each node"
            if why:
                cx.bad("one record", key, where, f"{ast.unparse(c)[:80]} {why}: a node shared by several parameters would be sampled again")
            else:
                cx.ok("one record", key, where)
    if not n:
        cx.unk("one record", "_sample_helper", "", "no call found")


SPREAD = {"numpy.full": "fill_value", "numpy.full_like": "fill_value", "numpy.repeat": "a", "numpy.tile": "A", "numpy.broadcast_to": "array"}


def constants(cx):
    """np.full(n, value) spreads an array of n entries over the samples: only a scalar may be repeated that way."""
    f = cx.P.method("ParameterizedNode", "_sample_helper")
    it = cx.interp()
    st = St({}, {}, ())
    it.uninterp = {"GraphState.set"}
    it.run(f, selfv=cx.self_obj(it, st, cx.P.cls("ParameterizedNode")), st=st)
    cx.done(it)
    n = 0
    for e in it.events:
        if e.kind != "ext" or e.name not in SPREAD or not e.fn.startswith("lightcurvelynx.base_models."):
            continue
        i = 1 if e.name.startswith("numpy.full") else 0
        v = e.args[i] if len(e.args) > i else e.kw.get(SPREAD[e.name])
        if v is None:
            continue
        t = it.T(v, st)
        n += 1
        key = f"ParameterizedNode._sample_helper:{e.name}"
        if t[0] == "attr" and t[-1] == "value" and "axis" not in e.kw and len(e.args) < 3:
            scalar = any(x and x[0] == "call" and str(x[1]) in ("numpy.isscalar", "numpy.ndim", "isinstance") and t in subterms(x) for c in e.pc for x in subterms(c) if isinstance(x, tuple))
            if scalar:
                cx.ok("constants", key, loc(e))
            else:
                cx.bad("constants", key, loc(e), f"{e.name} spreads the entries of an array constant over the samples instead of repeating the array")
        else:
            cx.ok("constants", key, loc(e))
    if not n:
        cx.ok("constants", "ParameterizedNode._sample_helper:constants", cx.where(f), "no spreading call")
