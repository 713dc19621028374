"""C24: sampler nodes draw the documented distributions, one value per sample."""

EXPLAIN = """The sampler and math nodes are interpreted abstractly; every draw with its arguments, the values stored for the samples, the position counters, constructor arguments and rejected
inputs are compared with the reference semantics in lcx/refsrc/samplers.py."""

import ast

from ..refs import refrules

# What an arithmetic expression may consist of besides checked names and calls, and what would let unchecked code through.
NEEDED = {"Module", "Expr", "Constant", "Load", "BinOp", "Add", "Sub", "Mult", "Div", "Pow", "UnaryOp", "USub"}
UNSAFE = {x for x, c in vars(ast).items() if isinstance(c, type) and issubclass(c, ast.stmt) and x not in ("Expr", "Pass")} | {
    "AST", "expr", "stmt", "mod", "Call", "Name", "Attribute", "Subscript", "Lambda", "NamedExpr", "ListComp", "SetComp", "DictComp", "GeneratorExp",
    "comprehension", "Await", "Yield", "YieldFrom", "JoinedStr", "FormattedValue", "Interactive"}
SAME = {"radians": "deg2rad", "degrees": "rad2deg", "pow": "power", "fabs": "abs", "absolute": "abs", "arccos": "acos", "arccosh": "acosh", "arcsin": "asin", "arcsinh": "asinh",
        "arctan": "atan", "arctan2": "atan2", "arctanh": "atanh", "amax": "max", "amin": "min"}
LIBS = ({"math", "builtins", ""}, {"numpy"}, {"jax.numpy"})


def literal(mod, e):
    """A literal table with names given in full (None: not a literal)."""
    if isinstance(e, (ast.Tuple, ast.List, ast.Set)):
        return [literal(mod, x) for x in e.elts]
    if isinstance(e, ast.Dict):
        return None if None in e.keys else [(literal(mod, k), literal(mod, v)) for k, v in zip(e.keys, e.values)]
    if isinstance(e, ast.Constant):
        return e.value
    if isinstance(e, ast.BinOp) and isinstance(e.op, ast.Add):
        a, b = literal(mod, e.left), literal(mod, e.right)
        return a + b if isinstance(a, list) and isinstance(b, list) else None
    if isinstance(e, ast.Attribute) and isinstance(e.value, ast.Name):
        return mod.imports.get(e.value.id, e.value.id) + "." + e.attr
    if isinstance(e, ast.Name):
        if e.id in mod.consts and e.id not in mod.multi:
            return literal(mod, mod.consts[e.id])
        return mod.imports.get(e.id, e.id)
    return None


def tables(cx):
    """The two tables the expression checker of BasicMathNode relies on."""
    c = cx.P.cls("BasicMathNode")
    where = f"{c.mod.rel}:{c.node.lineno}"
    for attr in ("_supported_ast_nodes", "_math_map"):
        e = c.find_attr(attr)
        e = e[-1] if isinstance(e, tuple) else e
        t = literal(c.mod, e) if e is not None else None
        if not isinstance(t, list) or None in t:
            cx.unk("tables", attr, where, "not a literal table")
            continue
        where = f"{c.mod.rel}:{e.lineno}"
        if attr == "_supported_ast_nodes":
            names = {str(x).rsplit(".", 1)[-1] for x in t}
            bad = names & UNSAFE
            cx.verdict(not bad, "tables", "unsafe", where, f"_supported_ast_nodes lets unchecked {sorted(bad)} through to eval()")
            miss = NEEDED - names
            cx.verdict(not miss, "tables", "needed", where, f"_supported_ast_nodes rejects basic arithmetic: {sorted(miss)}")
            continue
        for name, fns in t:
            if not isinstance(name, str) or not isinstance(fns, list) or len(fns) != 3 or not all(isinstance(f, str) for f in fns):
                cx.unk("tables", f"map {name}", where, "entry is not three names")
                continue
            for i, f in enumerate(fns):
                lib, _, fn = f.rpartition(".")
                lib = c.mod.imports.get(lib, lib) if lib else ""
                cx.verdict(lib in LIBS[i], "tables", f"lib {name} {i}", where, f"{name} of backend {('math', 'numpy', 'jax')[i]} is {f}, of another library")
                cx.verdict(SAME.get(fn, fn) == SAME.get(name, name), "tables", f"fn {name} {i}", where, f"{name} of backend {('math', 'numpy', 'jax')[i]} evaluates {f}")


def run(cx):
    refrules(cx, "samplers", {
        "draws": "a random node draws its documented distribution once per sample with that sample's parameters and stores what it returns",
        "given": "given values and tables are returned in order or drawn with their weights, whole rows at a time, never beyond the end",
        "positions": "positions are uniform on the sphere, around the pointings, inside the survey or inside the map, in the requested unit",
        "math": "a math node evaluates the given expression of the allowed functions and variables with the functions of its own backend",
    })
    cx.rule("tables", "every allowed function is the same mathematical function in each backend, and only arithmetic passes the expression check", tables, cx)
