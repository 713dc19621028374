"""C02: a seeded run is reproducible."""

import ast

from ..ctx import loc
from ..interp import HObj, St, V, show
from ..prog import walk_own
from ..rngs import DrawScan, install
from .c01 import EXTERNAL, rng_methods

EXPLAIN = """Three analyses. (1) Seeds: every class whose constructor takes a seed (itself or through its base classes) is built abstractly with a symbolic seed, and every function with a seed is
interpreted with one; each draw then reached without a caller's generator must come from a generator made from that seed (after set_seed: from the new one). (2) Order: every place that reveals the order
of a set or of a directory listing (loops, comprehensions, list(), enumerate, join, unpacking ...) must feed an order-insensitive consumer (sorted, len, set, any, membership, keyed stores).
(3) Process state: no reachable call of the clock, object identity, hash(), uuid or process randomness feeds a result; fresh generators and seeds are made only where none was given."""

INSENSITIVE = {"sorted", "set", "frozenset", "len", "min", "max", "any", "all", "unique", "sort", "intersection", "union", "difference", "symmetric_difference", "issubset", "issuperset", "isdisjoint",
               "update", "intersection_update", "difference_update", "isin", "in1d", "add", "discard", "Counter", "isinstance", "bool"}
REVEALS = {"list", "tuple", "enumerate", "zip", "map", "filter", "iter", "next", "array", "asarray", "fromiter", "join", "extend", "reversed", "dict", "OrderedDict", "fromkeys", "concat", "concatenate", "vstack",
           "hstack", "stack", "DataFrame", "Series", "choice", "chain"}
SETMETHODS = {"union", "intersection", "difference", "symmetric_difference"}
LISTINGS = {"iterdir", "glob", "rglob", "listdir", "scandir", "walk", "iglob"}
CLOCK = ("time.time", "time.time_ns", "time.perf_counter", "time.monotonic", "datetime.datetime.now", "datetime.datetime.utcnow", "datetime.datetime.today", "datetime.date.today", "uuid.", "secrets.", "os.getpid",
         "astropy.time.Time.now", "os.urandom", "random.")


def run(cx):
    cx.max_term = 5000
    cx.rngm = rng_methods(cx.P)
    seeds(cx)
    cx.rule("order", "no result depends on the order of a set or of a directory listing", order, cx)
    cx.rule("process", "no result depends on the clock, on object identity or hashing, or on process randomness; generators and seeds are made afresh only where none was given", process, cx)


# ------------------------------------------------------------------ seeds
def takes_seed(c):
    """Does the constructor accept a seed: 'own', through **kwargs of its bases, or not at all?"""
    for i, k in enumerate(c.mro()):
        f = k.methods.get("__init__")
        if f is None:
            continue
        if "seed" in f.call_params():
            return "own" if f is c.find("__init__") else "bases"
        if not f.kwarg:
            return None
    return None


def seeds(cx):
    P = cx.P
    for m in sorted(P.mods.values(), key=lambda m: m.name):
        for f in m.funcs.values():
            if "seed" in f.call_params():
                cx.rule(f"seed:{f.name}", "with a seed, every draw comes from a generator made from it", of_function, cx, f)
    for c in sorted(P.classes.values(), key=lambda c: c.qual):
        how = takes_seed(c)
        if how is None or c.name in EXTERNAL:
            continue
        cx.rule(f"seed:{c.name}", "an object built with a seed draws from generators made from that seed when the caller gives none", of_class, cx, c, how, group=c.qual)


def mk_seed(tag):
    # zero: the seed that a test for truth takes for none at all
    return V(t=("k", 0), g=frozenset([tag]), n="V")


def from_seed(it, st, r, tag):
    """Do all the generators a draw may use come from this seed (or from a fixed one)?"""
    gs = [a[1] for a in r.a if a[0] == "obj" and str(a[1]).startswith("gen")]
    if not gs:
        return None
    for a in gs:
        h = st.heap.get(a)
        if h is None or h.extra is None or h.extra.t == ("k", None):
            return False
        if tag in h.extra.g or (h.extra.t[0] == "k" and not h.extra.g & {"SEED", "NEWSEED"}) or (tag == "SEED" and "kwargs['seed']" in show(h.extra.t)):
            continue
        return False
    return True


def scan(cx, it, st, rule, name, tag, where):
    n = 0
    for e, how, r in DrawScan(it, st, cx.rngm).draws():
        if any(x in e.fn.split(".") for x in EXTERNAL):
            continue
        key = f"draw:{name}:{e.fn}:{e.name if isinstance(e.name, str) else 'dynamic'}"
        if how == "sampler":
            # a third-party sampler is given its generator (that it is given one at all is C01's matter)
            gs = [v for v in r if v is not None and from_seed(it, st, v, tag) is not None]
            if not gs:
                continue
            r = gs[0]
        n += 1
        if r is None:
            cx.bad(rule, key, loc(e), f"{how} is used by {name} although a seed was given")
            continue
        good = from_seed(it, st, r, tag)
        if good is None:
            cx.unk(rule, key, loc(e), "generator of unknown origin")
        elif good:
            cx.ok(rule, key, loc(e))
        else:
            cx.bad(rule, key, loc(e), f"{name} draws from {show(r.t)[:80]}, which is not made from the seed it was given")
    if not n:
        cx.ok(rule, f"nodraw:{name}", where, "no draw")


def of_function(cx, f):
    it = cx.interp()
    install(it)
    st = St({}, {}, ())
    it.run(f, st=st, given={"seed": mk_seed("SEED")})
    cx.done(it)
    scan(cx, it, st, f"seed:{f.name}", f.name, "SEED", cx.where(f))


def of_class(cx, c, how):
    rule = f"seed:{c.name}"
    methods = sorted(n for n in {n for k in c.mro() for n in k.methods} if n in ("compute", "generate", "sample_parameters"))

    def build():
        it = cx.interp()
        install(it)
        st = St({}, {}, ())
        given, kw = {}, None
        if how == "own":
            given["seed"] = mk_seed("SEED")
        else:
            st.heap["KW"] = HObj("dict", d={"seed": mk_seed("SEED")})
            kw = V(a=frozenset([("obj", "KW")]), t=("s", "kwargs"), n="V")
        return it, st, cx.self_obj(it, st, c, init=True, given=given, kwargs=kw)

    for i, n in enumerate(methods):
        it, st, selfv = build()
        f = c.find(n)
        if i:
            it.events.clear()       # the draws of the constructor are judged once
        it.run(f, selfv=selfv, st=st, given={p: it.const(None) for p in f.call_params() if p in ("rng_info", "rng")})
        cx.done(it)
        scan(cx, it, st, rule, f"{c.name}.{n}", "SEED", cx.where(f))
    s = c.find("set_seed")
    if s is not None and s.call_params():
        for n in methods[:1]:
            it, st, selfv = build()
            it.run(s, selfv=selfv, st=st, given={s.call_params()[0]: mk_seed("NEWSEED")})
            f = c.find(n)
            it.events.clear()
            it.run(f, selfv=selfv, st=st, given={p: it.const(None) for p in f.call_params() if p in ("rng_info", "rng")})
            cx.done(it)
            scan(cx, it, st, rule, f"{c.name}.set_seed+{n}", "NEWSEED", cx.where(s))


def functions(P):
    fs = {f.qual: f for f in P.funcs.values()}
    for c in P.classes.values():
        fs.update({f.qual: f for f in [*c.methods.values(), *c.setters.values()]})
    return [fs[q] for q in sorted(fs)]


# ------------------------------------------------------------------ order
def callee(n):
    f = n.func
    return f.attr if isinstance(f, ast.Attribute) else f.id if isinstance(f, ast.Name) else None


class Sets:
    """Which expressions of a function are sets or directory listings."""

    def __init__(self, fnode, attrs):
        self.attrs = attrs
        self.names, other = set(), set()
        for _ in range(3):
            for n in walk_own(fnode):
                ts = n.targets if isinstance(n, ast.Assign) else [n.target] if isinstance(n, (ast.AnnAssign, ast.NamedExpr)) and n.value is not None else []
                for t in ts:
                    if isinstance(t, ast.Name):
                        (self.names if self.is_set(n.value) else other).add(t.id)

    def is_set(self, e):
        if isinstance(e, ast.Set):
            return len(e.elts) > 1 or isinstance(e.elts[0], ast.Starred)
        if isinstance(e, ast.SetComp):
            return True
        if isinstance(e, ast.Name):
            return e.id in self.names
        if isinstance(e, ast.Attribute):
            return isinstance(e.value, ast.Name) and e.value.id == "self" and e.attr in self.attrs
        if isinstance(e, ast.Call):
            n = callee(e)
            if n in ("set", "frozenset") and isinstance(e.func, ast.Name):
                a = e.args[0] if e.args else None
                return not (isinstance(a, (ast.List, ast.Tuple)) and len(a.elts) <= 1 and not any(isinstance(z, ast.Starred) for z in a.elts))
            if n in LISTINGS:
                return not (n == "walk" and isinstance(e.func.value, ast.Name) and e.func.value.id == "ast")
            if n in SETMETHODS | {"copy"} and isinstance(e.func, ast.Attribute):
                return self.is_set(e.func.value)
        if isinstance(e, ast.BinOp) and isinstance(e.op, (ast.BitOr, ast.BitAnd, ast.Sub, ast.BitXor)):
            return self.is_set(e.left) or self.is_set(e.right) and not isinstance(e.op, ast.Sub)
        if isinstance(e, ast.IfExp):
            return self.is_set(e.body) or self.is_set(e.orelse)
        return False


def set_attrs(P, c):
    out = set()
    for k in P.classes.values():
        if c in k.mro() or k in c.mro():
            for f in k.methods.values():
                s = Sets(f.node, set())
                for n in walk_own(f.node):
                    if isinstance(n, ast.Assign) and s.is_set(n.value):
                        out |= {t.attr for t in n.targets if isinstance(t, ast.Attribute) and isinstance(t.value, ast.Name) and t.value.id == "self"}
    return out


def harmless(stmts, var):
    """A loop body whose effect does not depend on the order of the elements."""
    names = {n.id for n in ast.walk(var) if isinstance(n, ast.Name)}
    for s in stmts:
        if isinstance(s, (ast.Pass, ast.Continue, ast.Raise, ast.Assert)):
            continue
        if isinstance(s, ast.If):
            if not harmless(s.body, var) or not harmless(s.orelse, var):
                return False
            continue
        if isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant):
            continue
        if isinstance(s, ast.Expr) and isinstance(s.value, ast.Call) and callee(s.value) in ("add", "discard", "warn", "warning", "debug", "info"):
            continue
        if isinstance(s, ast.Delete) or (isinstance(s, ast.Assign) and all(isinstance(t, ast.Subscript) and names & {n.id for n in ast.walk(t.slice) if isinstance(n, ast.Name)} for t in s.targets)):
            continue
        return False
    return True


def order(cx):
    P = cx.P
    n = 0
    for f in functions(P):
        attrs = set_attrs(P, f.cls) if f.cls is not None else set()
        s = Sets(f.node, attrs)
        up = {}
        for x in ast.walk(f.node):
            for y in ast.iter_child_nodes(x):
                up[y] = x
        for x in walk_own(f.node):
            if not isinstance(x, ast.expr) or not s.is_set(x):
                continue
            n += 1
            p = up.get(x)
            key = f"order:{f.qual}:{ast.unparse(x)[:60]}"
            w = f"{f.file}:{x.lineno} in {f.qual}"
            kind = revealed(x, p, up, s)
            if kind is None or excused(x, p, up, f):
                cx.ok("order", key, w)
            else:
                cx.bad("order", key, w, f"{kind} reveals the order of {ast.unparse(x)[:60]}, which differs between processes")
    if not n:
        cx.ok("order", "order:none", "", "no set and no directory listing is used")


def revealed(x, p, up, s):
    if isinstance(p, (ast.For, ast.AsyncFor)) and p.iter is x:
        return None if harmless(p.body, p.target) else "the loop"
    if isinstance(p, ast.comprehension) and p.iter is x:
        c = up[p]
        return None if isinstance(c, ast.SetComp) else "the comprehension"
    if isinstance(p, ast.Starred):
        g = up.get(p)
        return None if isinstance(g, ast.Set) or (isinstance(g, ast.Call) and callee(g) in INSENSITIVE | {"gcd", "lcm"}) else "the unpacking"
    if isinstance(p, ast.Call) and (x in p.args or any(k.value is x for k in p.keywords)):
        n = callee(p)
        return f"{n}()" if n in REVEALS else None
    if isinstance(p, ast.Attribute) and p.value is x and p.attr == "pop" and isinstance(up.get(p), ast.Call):
        return "pop()"
    if isinstance(p, (ast.Yield, ast.YieldFrom)) and isinstance(p, ast.YieldFrom):
        return "yield from"
    return None


def excused(x, p, up, f):
    """Does what is revealed end in an order-insensitive consumer?"""
    y = p
    while y is not None and not isinstance(y, ast.stmt):
        if isinstance(y, ast.Call) and callee(y) in INSENSITIVE:
            return True
        if isinstance(y, ast.Compare) and any(isinstance(o, (ast.In, ast.NotIn)) for o in y.ops):
            return True
        if isinstance(y, (ast.JoinedStr, ast.FormattedValue)):
            return True         # the text of a message
        y = up.get(y)
    if isinstance(y, ast.Raise):
        return True
    if isinstance(y, (ast.Assign, ast.AnnAssign, ast.For)):
        ts = y.targets if isinstance(y, ast.Assign) else [y.target] if isinstance(y, ast.AnnAssign) else []
        if isinstance(y, ast.For):
            # a list filled in a loop and sorted afterwards
            ts = [n.func.value for n in ast.walk(y) if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in ("append", "extend")]
        names = {t.id for t in ts if isinstance(t, ast.Name)}
        return bool(names) and all(sorted_later(v, f, y, up) for v in names)
    return False


def sorted_later(v, f, y, up):
    """Every use of the name after this statement is its sort, or order-insensitive."""
    inside = {id(n) for n in ast.walk(y)}
    uses = [n for n in walk_own(f.node) if isinstance(n, ast.Name) and n.id == v and isinstance(n.ctx, ast.Load) and id(n) not in inside and n.lineno >= y.lineno]
    for u in sorted(uses, key=lambda n: (n.lineno, n.col_offset)):
        p = up.get(u)
        if isinstance(p, ast.Attribute) and p.attr == "sort":
            return True
        if isinstance(p, ast.Call) and callee(p) in INSENSITIVE:
            continue
        if isinstance(p, ast.Compare) and any(isinstance(o, (ast.In, ast.NotIn)) for o in p.ops):
            continue
        return False
    return bool(uses)


# ------------------------------------------------------------------ process state
def process(cx):
    P = cx.P
    n = 0
    for f in functions(P):
        up = {}
        for x in ast.walk(f.node):
            for y in ast.iter_child_nodes(x):
                up[y] = x
        local = {a.arg for a in ast.walk(f.node.args) if isinstance(a, ast.arg)}
        for x in walk_own(f.node):
            if not isinstance(x, ast.Call):
                continue
            name = dotted(P, f, x.func)
            if name is None:
                continue
            w = f"{f.file}:{x.lineno} in {f.qual}"
            key = f"process:{f.qual}:{name}"
            if name in ("id", "hash") and name not in local:
                n += 1
                y = up.get(x)
                while isinstance(y, ast.expr) and not isinstance(y, (ast.JoinedStr, ast.Compare)):
                    y = up.get(y)
                if f.name in ("__hash__", "__repr__", "__str__") or isinstance(y, ast.Compare) or used_as_key(x, up):
                    cx.ok("process", key, w)
                else:
                    cx.bad("process", key, w, f"{name}() differs between processes and feeds a result of {f.qual}")
            elif any(name == c or (c.endswith(".") and name.startswith(c)) for c in CLOCK):
                n += 1
                if name == "os.urandom" and guarded(x, up, f, P):
                    cx.ok("process", key, w)
                elif only_logged(x, up):
                    cx.ok("process", key, w)
                else:
                    cx.bad("process", key, w, f"{name}() differs between runs and feeds a result of {f.qual}" + (" although a seed may have been given" if "urandom" in name else ""))
            elif name == "numpy.random.default_rng" and not x.args and not x.keywords:
                n += 1
                if guarded(x, up, f, P):
                    cx.ok("process", key, w)
                else:
                    cx.bad("process", key, w, f"{f.qual} makes a fresh generator although one or a seed may have been given")
    if not n:
        cx.ok("process", "process:none", "", "no such call")


def used_as_key(x, up):
    """id(x) in seen, seen.add(id(x)), seen[id(x)]"""
    p = up.get(x)
    return (isinstance(p, ast.Compare)) or (isinstance(p, ast.Call) and callee(p) in ("add", "discard", "get", "setdefault", "pop")) or (isinstance(p, ast.Subscript) and p.slice is x)


def only_logged(x, up):
    """start = time.time() ... logger.info(time.time() - start) is no result"""
    y = x
    while y is not None and not isinstance(y, ast.stmt):
        if isinstance(y, ast.Call) and callee(y) in ("info", "debug", "warning", "warn", "print", "log"):
            return True
        y = up.get(y)
    if isinstance(y, ast.Assign) and len(y.targets) == 1 and isinstance(y.targets[0], ast.Name):
        fn = y
        while not isinstance(fn, (ast.FunctionDef, ast.AsyncFunctionDef)):
            fn = up.get(fn)
            if fn is None:
                return False
        uses = [n for n in ast.walk(fn) if isinstance(n, ast.Name) and n.id == y.targets[0].id and isinstance(n.ctx, ast.Load)]
        return all(only_logged(u, up) for u in uses)
    return False


def guarded(x, up, f, P, depth=0):
    """Reached only where a parameter of the function is None."""
    ps = set(f.params) | set(f.kwonly)
    binds = {}
    for n in walk_own(f.node):
        if isinstance(n, ast.Assign):
            for t in n.targets:
                if isinstance(t, ast.Name):
                    binds.setdefault(t.id, []).append(n.value)

    def none_test(t, want):
        if isinstance(t, ast.Name) and t.id not in ps and t.id in binds:
            # a flag: the test it was given
            return all(isinstance(v, (ast.Compare, ast.UnaryOp, ast.BoolOp)) and none_test(v, want) for v in binds[t.id])
        if isinstance(t, ast.Compare) and len(t.ops) == 1 and isinstance(t.left, ast.Name) and t.left.id in ps and isinstance(t.comparators[0], ast.Constant) and t.comparators[0].value is None:
            return isinstance(t.ops[0], (ast.Is, ast.Eq)) if want else isinstance(t.ops[0], (ast.IsNot, ast.NotEq))
        if isinstance(t, ast.UnaryOp) and isinstance(t.op, ast.Not):
            return (isinstance(t.operand, ast.Name) and t.operand.id in ps and want) or none_test(t.operand, not want)
        if isinstance(t, ast.Name) and t.id in ps:
            return not want
        if isinstance(t, ast.BoolOp) and isinstance(t.op, ast.And if want else ast.Or):
            return any(none_test(v, want) for v in t.values)
        return False

    y, c = up.get(x), x
    while y is not None:
        if isinstance(y, (ast.If, ast.IfExp)):
            body = y.body if isinstance(y.body, list) else [y.body]
            els = y.orelse if isinstance(y.orelse, list) else [y.orelse]
            if any(c is b for b in body) and none_test(y.test, True):
                return True
            if any(c is b for b in els) and none_test(y.test, False):
                return True
        if isinstance(y, ast.BoolOp) and isinstance(y.op, ast.Or) and y.values[0] is not c and isinstance(y.values[0], ast.Name) and y.values[0].id in ps:
            return True
        # after "if p is not None: return/raise"
        for field in ("body", "orelse"):
            b = getattr(y, field, None)
            if isinstance(b, list) and c in b:
                for s in b[: b.index(c)]:
                    if isinstance(s, ast.If) and none_test(s.test, False) and s.body and isinstance(s.body[-1], (ast.Return, ast.Raise, ast.Continue)):
                        return True
        c, y = y, up.get(y)
    # a helper is judged by its callers
    if f.name.startswith("_") and not f.name.startswith("__"):
        return True
    if depth < 3 and not any("seed" in p or "rng" in p or "gen" in p for p in ps):
        sites = [(g, n) for g in functions(P) if g is not f for n in walk_own(g.node) if isinstance(n, ast.Call) and callee(n) == f.name]
        return bool(sites) and all(guarded(n, parents(g.node), g, P, depth + 1) for g, n in sites)
    return False


def parents(node):
    up = {}
    for x in ast.walk(node):
        for y in ast.iter_child_nodes(x):
            up[y] = x
    return up


def dotted(P, f, e):
    parts = []
    while isinstance(e, ast.Attribute):
        parts.append(e.attr)
        e = e.value
    if not isinstance(e, ast.Name):
        return None
    base = e.id
    r = f.mod.imports.get(base) if hasattr(f.mod, "imports") else None
    if isinstance(r, tuple):
        r = ".".join(str(z) for z in r if z)
    if r is None:
        return ".".join([base, *reversed(parts)]) if not parts else None
    return ".".join([str(r), *reversed(parts)])
