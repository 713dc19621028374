"""Context-sensitive abstract interpreter over the repository's syntax trees.

Abstract values are a product of
  a  possible identities (project functions/classes/objects, externals)        -- call resolution
  t  a value-numbering (Herbrand) term over the entry point's inputs            -- gated at joins
  g  provenance tags (which inputs may flow in, data and control)               -- dataflow
  o  alias origins (which caller/heap memory the value may share)               -- ownership
  n  None-ness ('N' certainly None, 'V' certainly not None, '?' unknown)        -- nullness
Branches are joined (never enumerated as paths), loops are widened after one abstract iteration, project
callees are analysed in the caller's context, external callees through a small table of facts.
Nothing of the analysed package is ever imported or executed.
"""

from __future__ import annotations

import ast
import itertools

from .prog import Cls, Func, Module, Program, walk_own

EMPTY = frozenset()
_CTR = itertools.count()


class V:
    __slots__ = ("a", "t", "g", "o", "n")

    def __init__(self, a=EMPTY, t=None, g=EMPTY, o=EMPTY, n="?"):
        self.a, self.t, self.g, self.o, self.n = a, t, g, o, n

    def __repr__(self):
        return f"V({show(self.t)}, g={sorted(self.g)}, o={sorted(self.o)}, n={self.n}, a={[x[0] for x in self.a]})"

    def w(self, **k):
        d = dict(a=self.a, t=self.t, g=self.g, o=self.o, n=self.n)
        d.update(k)
        return V(**d)


def show(t, depth=0):
    if not isinstance(t, tuple):
        return repr(t)
    if depth > 12:
        return "..."
    h = t[0]
    s = lambda x: show(x, depth + 1)
    if h == "k":
        return repr(t[1])
    if h == "s":
        return t[1]
    if h == "x":
        return t[1]
    if h == "attr":
        return f"{s(t[1])}.{t[2]}"
    if h == "item":
        return f"{s(t[1])}[{s(t[2])}]"
    if h == "bin":
        return f"({s(t[2])} {t[1]} {s(t[3])})"
    if h == "cmp":
        return f"({s(t[2])} {t[1]} {s(t[3])})"
    if h == "ite":
        return f"ite({s(t[1])} ? {s(t[2])} : {s(t[3])})"
    if h in ("call", "mcall"):
        return f"{t[1]}({', '.join(s(x) for x in t[2:])})"
    return f"{h}({', '.join(s(x) if isinstance(x, tuple) else str(x) for x in t[1:])})"


_SIZES = {}


def subs(t):
    out, todo = set(), [t]
    while todo:
        x = todo.pop()
        if isinstance(x, tuple) and x and x not in out:
            out.add(x)
            todo.extend(x)
    return out


def subst(t, sub):
    """Replace whole subterms."""
    memo = {}

    def go(x):
        if not isinstance(x, tuple) or not x:
            return x
        if x not in memo:
            memo[x] = sub[x] if x in sub else tuple(go(y) if isinstance(y, tuple) else y for y in x)
        return memo[x]

    return go(t)


def tsize(t, lim=0):
    """Tree size of a term, memoised by identity (the memo keeps the term alive, so ids stay valid)."""
    if not isinstance(t, tuple):
        return 0
    hit = _SIZES.get(id(t))
    if hit is not None:
        return hit[1]
    if len(_SIZES) > 3_000_000:
        _SIZES.clear()
    todo = [t]
    while todo:
        x = todo[-1]
        if id(x) in _SIZES:
            todo.pop()
            continue
        n, wait = 1, False
        for c in x[1:]:
            if isinstance(c, tuple):
                h = _SIZES.get(id(c))
                if h is None:
                    todo.append(c)
                    wait = True
                else:
                    n += h[1]
        if not wait:
            _SIZES[id(x)] = (x, n)
            todo.pop()
    return _SIZES[id(t)][1]


class HObj:
    """Abstract heap object (copy-on-write)."""

    __slots__ = ("kind", "cls", "d", "items", "summ", "sym", "label", "extra", "acc", "may")

    def __init__(self, kind, cls=None, d=None, items=None, summ=None, sym=None, label=None, extra=None, acc=None, may=None):
        self.kind, self.cls, self.acc = kind, cls, acc
        self.d = {} if d is None else d
        self.items, self.summ, self.sym, self.label, self.extra = items, summ, sym, label, extra
        self.may = may or {}            # keys of a dictionary that may be missing, and when they are there (replaced, never changed)

    def clone(self):
        return HObj(self.kind, self.cls, dict(self.d), None if self.items is None else list(self.items), self.summ,
                    self.sym, self.label, self.extra, self.acc, self.may)


DRAWS = {"random", "uniform", "normal", "choice", "integers", "standard_normal", "exponential", "poisson", "shuffle", "permutation", "beta", "gamma", "binomial", "lognormal",
         "multivariate_normal", "rvs", "randint", "rand", "randn"}


class St:
    __slots__ = ("env", "heap", "pc", "dead", "drawn")

    def __init__(self, env, heap, pc, dead=False, drawn=None):
        self.env, self.heap, self.pc, self.dead = env, heap, pc, dead
        self.drawn = drawn or {}        # how often the same draw was made so far (replaced, never changed)

    def copy(self):
        return St(dict(self.env), dict(self.heap), self.pc, self.dead, self.drawn)

    def assign_from(self, o):
        self.env, self.heap, self.pc, self.dead, self.drawn = o.env, o.heap, o.pc, o.dead, o.drawn


class Event:
    __slots__ = ("kind", "name", "fn", "file", "line", "pc", "recv", "args", "kw", "star", "seq", "stack", "extra", "targets", "ret", "loops", "trys")

    def __init__(self, kind=None, name=None, fn=None, file=None, line=None, pc=None, recv=None, args=None, kw=None, star=None, seq=None,
                 stack=None, extra=None, targets=None, ret=None, loops=None, trys=None):
        self.kind, self.name, self.fn, self.file, self.line, self.pc, self.recv = kind, name, fn, file, line, pc, recv
        self.args, self.kw, self.star, self.seq, self.stack, self.extra = args, kw, star, seq, stack, extra
        self.targets, self.ret, self.loops, self.trys = targets, ret, loops, trys

    @property
    def loc(self):
        return f"{self.file}:{self.line}"

    def __repr__(self):
        return f"<{self.kind} {self.name} @{self.loc} in {self.fn}>"


class Frame:
    def __init__(self, func, mod, cls, selfv, outer_env):
        self.func, self.mod, self.cls, self.selfv, self.outer_env = func, mod, cls, selfv, outer_env
        self.returns, self.yields = [], []
        self.loopctl = []
        self.globals_declared = set()


VIEW_FUNCS = {
    "numpy.asarray", "numpy.atleast_1d", "numpy.atleast_2d", "numpy.ravel", "numpy.squeeze", "numpy.reshape",
    "numpy.transpose", "numpy.broadcast_to", "numpy.asanyarray", "numpy.expand_dims", "numpy.ascontiguousarray",
    "numpy.swapaxes", "numpy.moveaxis", "jax.numpy.asarray",
}
# value-transparent (elementwise identity) callables: term of the result is the term of the argument
SAME_FUNCS = VIEW_FUNCS | {
    "numpy.array", "jax.numpy.array", "float", "int", "list", "tuple", "copy.copy", "copy.deepcopy", "numpy.copy",
    "numpy.float64", "numpy.float32", "pandas.Series",
}
LOSSY = {"numpy.float32": "f32", "numpy.single": "f32", "float32": "f32", "f4": "f32", "numpy.float16": "f16", "numpy.half": "f16", "float16": "f16", "f2": "f16",
         **{x: "int" for x in ("int", "int8", "int16", "int32", "int64", "uint8", "uint16", "uint32", "uint64", "i4", "i8", "numpy.int_", "numpy.intp")},
         **{f"numpy.{u}int{n}": "int" for u in ("", "u") for n in (8, 16, 32, 64)}}
WHOLE = {"len", "numpy.size", "numpy.floor", "numpy.ceil", "numpy.round", "numpy.rint", "numpy.searchsorted", "numpy.argmin", "numpy.argmax", "numpy.argsort",
         "numpy.digitize", "numpy.arange", "range", "numpy.sign"}


def lossy(v):
    """The kind of number a dtype argument rounds its values to, None when nothing is lost."""
    if v is None:
        return None
    n = v.t[1] if v.t[:1] in (("x",), ("k",), ("s",)) and len(v.t) == 2 and isinstance(v.t[1], str) else None
    return LOSSY.get(n)


def sometimes(t):
    """A list filled by a loop that does not append in every pass."""
    def unsure(b):
        if b[0] == "cat":
            return unsure(b[1]) or any(y[0] in ("ite", "loop", "filter") and unsure(y) for y in b[2:])
        if b[0] == "loop" and len(b) == 5:
            return unsure(b[3]) or unsure(b[4])
        return b[0] == "ite"

    return t[0] in ("loop", "cat", "ite") and unsure(t) and not any(x and x[0] == "top" for x in subs(t))


def cast(kind, t):
    if kind is None or is_pred(t) or (kind == "int" and (t[0] == "idx" or (t[0] == "k" and (isinstance(t[1], (bool, int)) or t[1] == 0.0)) or (t[0] == "call" and t[1] in WHOLE))):
        return t
    return ("call", "cast:" + kind, t)


VIEW_METHODS = {"reshape", "ravel", "view", "to_numpy", "squeeze", "transpose", "swapaxes", "__array__"}
SAME_METHODS = VIEW_METHODS | {"copy", "flatten", "tolist", "to_list", "astype"}
VIEW_ATTRS = {"T", "values", "data", "flat", "loc", "iloc", "at", "iat"}
SAME_ATTRS = {"T", "values", "flat"}
SET_SHRINK = ("discard", "remove", "pop", "clear", "difference_update", "intersection_update", "symmetric_difference_update")
MUTATORS = {
    "append", "extend", "insert", "pop", "remove", "sort", "update", "clear", "setdefault", "popitem", "add", "discard",
    "fill", "put", "resize", "itemset", "partition", "reverse", "add_column", "remove_column", "rename_column", "setfield",
    "add_row", "remove_rows", "keep_columns", "write_direct", "setflags", "byteswap",
}
INPLACE_KW = {"rename", "drop", "fillna", "dropna", "sort_values", "replace", "reset_index", "set_index", "sort_index", "drop_duplicates", "astype"}
BUILTINS = set(dir(__builtins__ if not isinstance(__builtins__, dict) else type("x", (), __builtins__))) | {
    "print", "len", "range", "enumerate", "zip", "isinstance", "hasattr", "getattr", "setattr", "sorted", "reversed", "min", "max",
    "sum", "any", "all", "map", "filter", "set", "frozenset", "dict", "list", "tuple", "str", "int", "float", "bool", "abs", "round",
    "callable", "type", "iter", "next", "super", "eval", "exec", "open", "id", "hash", "vars", "globals", "locals", "repr", "object",
}

INPLACE_OPS = {ast.Add: "+", ast.Sub: "-", ast.Mult: "*", ast.Div: "/", ast.Pow: "**", ast.Mod: "%", ast.FloorDiv: "//", ast.BitAnd: "&",
               ast.BitOr: "|", ast.BitXor: "^", ast.MatMult: "@", ast.LShift: "<<", ast.RShift: ">>"}
CMPS = {ast.Lt: "<", ast.LtE: "<=", ast.Gt: ">", ast.GtE: ">=", ast.Eq: "==", ast.NotEq: "!=", ast.Is: "is", ast.IsNot: "isnot", ast.In: "in", ast.NotIn: "notin"}
NEG = {"<": ">=", "<=": ">", ">": "<=", ">=": "<", "==": "!=", "!=": "==", "is": "isnot", "isnot": "is", "in": "notin", "notin": "in"}

# booleans carry a third slot: ("k", True) and ("k", 1) would compare equal
TRUE, FALSE, NONE = ("k", True, "b"), ("k", False, "b"), ("k", None)


def K(c):
    return ("k", c, "b") if isinstance(c, bool) else ("k", c)


def t_not(p):
    if p == TRUE:
        return FALSE
    if p == FALSE:
        return TRUE
    if p[0] == "not":
        return p[1]
    if p[0] == "cmp" and p[1] in ("is", "isnot", "in", "notin"):
        return ("cmp", NEG[p[1]], p[2], p[3])
    return ("not", p)


def t_and(ps):
    out = []
    for p in ps:
        if p == TRUE:
            continue
        if p == FALSE:
            return FALSE
        if p[0] == "and":
            out.extend(x for x in p[1:] if x not in out)
        elif p not in out:
            out.append(p)
    if not out:
        return TRUE
    if len(out) == 1:
        return out[0]
    return ("and", *out)


def t_or(ps):
    return t_not(t_and([t_not(p) for p in ps])) if len(ps) == 1 else _or(ps)


def _or(ps):
    out = []
    for p in ps:
        if p == FALSE:
            continue
        if p == TRUE:
            return TRUE
        if p[0] == "or":
            out.extend(x for x in p[1:] if x not in out)
        elif p not in out:
            out.append(p)
    if not out:
        return FALSE
    if len(out) == 1:
        return out[0]
    return ("or", *out)


def t_ite(c, a, b):
    if a == b:
        return a
    if c == TRUE:
        return a
    if c == FALSE:
        return b
    if c[0] == "not":
        return ("ite", c[1], b, a)
    return ("ite", c, a, b)


def is_pred(t):
    return isinstance(t, tuple) and (t[0] in ("cmp", "and", "or", "not") or t in (TRUE, FALSE) or (t[0] == "call" and t[1] in ("numpy.any", "numpy.all", "numpy.isnan", "numpy.isfinite", "numpy.isin", "isinstance", "numpy.isscalar", "hasattr", "callable")))


class Budget(Exception):
    pass


def no_op(s):
    """A statement without effect: docstring, pass, a constant assigned to a local name, a branch never taken."""
    if isinstance(s, ast.Pass) or (isinstance(s, ast.Expr) and isinstance(s.value, (ast.Constant, ast.Name))):
        return True
    if isinstance(s, ast.Assign):
        return isinstance(s.value, ast.Constant) and all(isinstance(t, ast.Name) for t in s.targets)
    if isinstance(s, ast.If) and isinstance(s.test, ast.Constant):
        return all(no_op(x) for x in (s.body if s.test.value else s.orelse))
    return False


def abstract(f):
    """A method whose body only declares that subclasses must implement it."""
    if isinstance(f.node, ast.Lambda):
        return False
    body = [s for s in f.node.body if not no_op(s)]
    if "abstractmethod" in f.decos or "abc.abstractmethod" in f.decos:
        return True
    if len(body) != 1 or not isinstance(body[0], ast.Raise) or body[0].exc is None:
        return False
    e = body[0].exc
    if isinstance(e, ast.Call):
        if e.args or e.keywords:
            return False
        e = e.func
    return isinstance(e, ast.Name) and e.id == "NotImplementedError"


def own_stores(t, label, k):
    """An accumulator changed only by stores at the loop's own index."""
    while t[0] == "store":
        if t[2][:2] != ("ix", label):
            return False
        t = t[1]
    if t[0] == "ite":
        return own_stores(t[2], label, k) and own_stores(t[3], label, k)
    return t == ("mu", label, k)


def replace(t, m):
    """A term with some subterms replaced."""
    memo = {}

    def go(x):
        if not isinstance(x, tuple) or not x:
            return x
        if x in m:
            return m[x]
        if x not in memo:
            memo[x] = tuple(go(y) if isinstance(y, tuple) else y for y in x)
        return memo[x]
    return go(t)


def alias_key(v):
    """Equal for values known to be one and the same array (a field of an object read before anything stored it: every read gives the same array)."""
    return (v.t, v.o) if v.t is not None and v.t[0] == "attr" and len(v.t) == 3 and v.o and not v.a else id(v)


class Interp:
    def __init__(self, prog: Program, max_depth=30, max_steps=400000, max_term=40000):
        self.prog = prog
        self.events = []
        self.mute = 0
        self.jmemo = None
        self.ctr = _CTR     # shared: unknown values of two runs are never the same value
        self.depth = 0
        self.max_depth = max_depth
        self.steps = 0
        self.newaxes = {}       # arrays indexed by one new axis and one full slice
        self.max_steps = max_steps
        self.max_term = max_term
        self.stack = []          # call stack of (Func)
        self.frames = []
        self.loops = []          # active loop ids
        self.trys = []
        self.mod_cache = {}
        self.mod_busy = set()
        self.cls_cache = {}
        self.cha = None          # callback(interp, recvV, name) -> list[Func] | None
        self.intrinsics = {}     # qualname or ('m', name) -> callback(interp, st, ev) -> V | None
        self.assume_truth = None  # callback(term) -> True/False/None
        self.visited = set()
        self._stk = None
        self.no_inline = set()
        self.lams, self.lamdepth = {}, 0
        self.uninterp = set()   # qualnames
        self.keep_copies = False  # show copies of existing arrays as copyof(...)
        self.budget_hit = False

    # ------------------------------------------------------------------ values
    def top(self, why="?", g=EMPTY, o=EMPTY):
        return V(t=("top", f"{why}#{next(self.ctr)}"), g=g, o=o)

    def const(self, c):
        try:
            hash(c)
        except TypeError:
            return self.top("const")
        return V(t=K(c), n="N" if c is None else "V")

    def sym(self, name, tags=None, origin=None, n="?", cls=None, st=None):
        v = V(t=("s", name), g=frozenset(tags if tags is not None else [name]), o=frozenset([origin] if origin else []), n=n)
        return v

    def new_obj(self, st, h, label=None):
        oid = label or f"o{next(self.ctr)}"
        st.heap[oid] = h
        return V(a=frozenset([("obj", oid)]), t=("s", f"<{oid}>"), n="V")

    def sym_obj(self, st, cls, name, tags=None, origin=None):
        """A symbolic instance of project class `cls`, fields created lazily."""
        h = HObj("inst", cls=cls, sym=("s", name), label=name)
        st.heap[name] = h
        return V(a=frozenset([("obj", name)]), t=("s", name), g=frozenset(tags if tags is not None else []),
                 o=frozenset([origin] if origin else []), n="V")

    def mk_list(self, st, items=None, summ=None, kind="list"):
        g = EMPTY
        for x in items or ([summ] if summ is not None else []):
            g |= x.g
        v = self.new_obj(st, HObj(kind, items=items, summ=summ))
        return v.w(g=g)

    def mk_tuple(self, items):
        g = frozenset().union(*[x.g for x in items]) if items else EMPTY
        o = frozenset().union(*[x.o for x in items]) if items else EMPTY
        return V(a=frozenset([("tup", tuple(items))]), t=("tuple", *[x.t for x in items]), g=g, o=o, n="V")

    def mk_dict(self, st, d=None, summ=None):
        v = self.new_obj(st, HObj("dict", d=d or {}, summ=summ))
        g = EMPTY
        for x in (d or {}).values():
            g |= x.g
        return v.w(g=g | (summ.g if summ else EMPTY))

    def objs(self, v, st):
        return [(a[1], st.heap[a[1]]) for a in v.a if a[0] == "obj" and a[1] in st.heap]

    def single_obj(self, v, st):
        if len(v.a) != 1:
            return None
        o = self.objs(v, st)
        return o[0] if o else None

    def T(self, v, st, depth=0):
        """Render the term of a value, looking through heap containers."""
        if depth > 8:
            return v.t
        for a in v.a:
            if a[0] == "tup" and len(v.a) == 1:
                return ("tuple", *[self.T(x, st, depth + 1) for x in a[1]])
        so = self.single_obj(v, st)
        if so is not None:
            oid, h = so
            if h.kind in ("list", "set"):
                if h.items is not None:
                    return (h.kind, *[self.T(x, st, depth + 1) for x in h.items])
                if h.summ is not None:
                    if "#" in h.d and (any(x and x[0] == "top" for x in subs(h.summ.t)) or sometimes(h.d["#"].t)):
                        return self.cap(h.d["#"].t if h.kind == "list" else ("setof", h.d["#"].t))
                    t = self.T(h.summ, st, depth + 1)
                    t = ("bag", ("aliased", t) if h.extra == "aliased" else t)
                    return t if h.kind == "list" else ("setof", t)
                return v.t
            if h.kind == "dict":
                if h.acc is not None:
                    return self.cap(("dictof", self.deref(subst(h.acc.t, {("s", f"<{oid}>"): ("s", "own")}), st, depth)))
                if h.summ is None:
                    return ("dict", *[("kv", k, self.T(x, st, depth + 1)) for k, x in h.d.items()])
                return ("dictx", self.T(h.summ, st, depth + 1), *[("kv", k, self.T(x, st, depth + 1)) for k, x in h.d.items()])
            if h.kind == "closure":
                return self.lam(oid, h, v, st)
            if h.kind == "inst" and isinstance(h.extra, tuple) and h.extra[0] == "ctor" and v.t == ("s", f"<{oid}>"):
                return self.cap(("call", "fn:new:" + h.cls.name, *[("kw", p, self.T(x, st, depth + 2)) for p, x in h.extra[1]]))
        if len(v.a) > 1 and v.t[0] == "ite":
            sub = {}
            for oid, h in self.objs(v, st):
                if h.kind in ("list", "set", "dict", "closure", "inst"):
                    sub[("s", f"<{oid}>")] = self.T(V(a=frozenset([("obj", oid)]), t=("s", f"<{oid}>")), st, depth + 1)

            def rec(t):
                if t[0] == "ite":
                    return ("ite", t[1], rec(t[2]), rec(t[3]))
                return sub.get(t, t)

            return self.cap(rec(v.t))
        return self.cap(v.t)

    def deref(self, t, st, depth, keep=()):
        """Stored containers show their present content."""
        sub = {}
        for x in subs(t):
            if x and x[0] == "s" and isinstance(x[1], str) and x[1][:1] == "<" and x[1][1:-1] in st.heap and x not in sub:
                h = st.heap[x[1][1:-1]]
                if h.kind in ("dict", "list", "set") and x[1][1:-1] not in keep:
                    sub[x] = x if depth > 6 else self.T(V(a=frozenset([("obj", x[1][1:-1])]), t=x), st, depth + 1)
        return subst(t, sub) if sub else t

    def dacc(self, h, st):
        """Stores made to a dictionary, in order."""
        if h.acc is not None:
            return h.acc.t
        if h.summ is None:
            return ("list", *[("pair", K(k), self.R(x, st)) for k, x in h.d.items()])
        return ("top", f"dict#{next(self.ctr)}")

    def R(self, v, st):
        """Like T, but a container is named rather than shown."""
        so = self.single_obj(v, st)
        if so is not None and so[1].kind in ("dict", "list", "set") and v.t == ("s", f"<{so[0]}>"):
            return v.t
        return self.T(v, st)

    def acc(self, h, st=None):
        """Contents of a list as an accumulated sequence: cat(...) of list(...) and sequences."""
        if "#" in h.d:
            return h.d["#"].t
        if h.items is not None:
            return ("list", *[self.T(x, st) if st is not None else x.t for x in h.items])
        if h.summ is not None:
            return ("bag", self.T(h.summ, st) if st is not None else h.summ.t)
        return ("top", f"list#{next(self.ctr)}")

    def seq(self, v, st):
        """A value as a sequence to be appended to a list."""
        so = self.single_obj(v, st)
        if so and so[1].kind in ("list", "set") and (so[1].items is not None or "#" in so[1].d):
            return self.acc(so[1], st)
        return self.T(v, st)

    def grow(self, h, h2, t, st):
        """Record that h2 is h followed by the sequence t."""
        if h.kind in ("list", "set"):
            h2.d["#"] = V(t=self.cap(("cat", self.acc(h, st), t)), n="V")

    def lam(self, oid, h, v, st):
        """Term of a local function: its result on bound symbols ($level.position)."""
        if oid in self.lams:
            return self.lams[oid]
        f, fr, env = h.extra
        if self.lamdepth > 1 or f.vararg or f.kwarg or f.is_gen:
            return v.t
        self.lams[oid] = v.t
        lv = f"L{len(self.lams)}"
        self.lamdepth += 1
        self.mute += 1
        keep = self.frames, self.loops, self.trys
        try:
            q = st.copy()
            q.pc = ()
            args = [V(t=("s", f"${lv}.{i}"), n="V") for i in range(len(f.params))]
            r = self.call_func(f, args, {}, (None, None), q, f.node, outer=(env, fr.outer_env), lex=fr)
            if not q.dead:
                self.lams[oid] = self.cap(("lam", len(args), lv, self.T(r, q)))
        except Budget:
            raise
        except Exception:
            pass
        finally:
            self.frames, self.loops, self.trys = keep
            self.mute -= 1
            self.lamdepth -= 1
        return self.lams[oid]

    def cap(self, t):
        if t is None:
            return ("top", f"none#{next(self.ctr)}")
        if len(t) > 1 and tsize(t) > self.max_term:
            return ("top", f"big#{next(self.ctr)}")
        return t

    def all_tags(self, v, st, depth=0):
        """Provenance of a value including container contents."""
        g = v.g
        if depth > 4:
            return g
        for a in v.a:
            if a[0] == "tup":
                for x in a[1]:
                    g |= self.all_tags(x, st, depth + 1)
        for oid, h in self.objs(v, st):
            if h.kind in ("list", "set", "dict"):
                for x in h.items or []:
                    g |= self.all_tags(x, st, depth + 1)
                for x in h.d.values():
                    g |= self.all_tags(x, st, depth + 1)
                if h.summ is not None:
                    g |= self.all_tags(h.summ, st, depth + 1)
        return g

    def all_origins(self, v, st, depth=0):
        o = v.o
        if depth > 3:
            return o
        for a in v.a:
            if a[0] == "tup":
                for x in a[1]:
                    o |= self.all_origins(x, st, depth + 1)
        return o

    # ------------------------------------------------------------------ joins
    def jv(self, a, b, cond=None, cg=EMPTY):
        """Join of two values; within one join of states, names of the same array stay names of the same array."""
        if a is b:
            return a
        m = self.jmemo
        if m is None or a is None or b is None:
            return self.jv1(a, b, cond, cg)
        k = (alias_key(a), alias_key(b), cond is None)
        if k not in m:
            m[k] = (self.jv1(a, b, cond, cg), a, b)
        return m[k][0]

    def jv1(self, a, b, cond=None, cg=EMPTY):
        if a is None:
            return b.w(g=b.g | cg)
        if b is None:
            return a.w(g=a.g | cg)
        if a.t == b.t:
            t = a.t
        elif cond is None:
            t = ("top", f"join#{next(self.ctr)}")
        else:
            t = self.cap(t_ite(cond, a.t, b.t))
        n = a.n if a.n == b.n else "?"
        g = a.g | b.g
        if a.t != b.t:
            g |= cg
        # tuples of equal length: join pointwise
        at = [x for x in a.a if x[0] == "tup"]
        bt = [x for x in b.a if x[0] == "tup"]
        atoms = a.a | b.a
        if len(at) == 1 and len(bt) == 1 and at[0] != bt[0] and len(at[0][1]) == len(bt[0][1]):
            tup = ("tup", tuple(self.jv(x, y, cond, cg) for x, y in zip(at[0][1], bt[0][1])))
            atoms = (a.a - {at[0]}) | (b.a - {bt[0]}) | {tup}
        # a value of unknown identity stays possible next to the known objects
        for x, y in ((a, b), (b, a)):
            if not x.a and x.n != "N" and x.t[0] != "k" and any(z[0] == "obj" for z in y.a) and not any(z[0] == "any" for z in y.a):
                atoms = atoms | {("any", x)}
        return V(a=atoms, t=t, g=g, o=a.o | b.o, n=n)

    def jh(self, a, b, cond, cg):
        if a is b:
            return a
        h = a.clone()
        if a.kind == b.kind == "dict" and a.extra != b.extra:
            one, two = (a, b) if a.extra is None else (b, a)
            own = [x.extra for x in (a, b) if isinstance(x.extra, tuple) and x.extra[0] == "keyed" and x.extra[1] and x.extra[1][0] == "key"]
            h.extra = own[0] if len(own) == 1 else two.extra if one.extra is None and one.summ is None and not one.d else None
        if a.kind == b.kind == "dict" and (a.acc is not b.acc or (a.acc is None and (a.d.keys() != b.d.keys() or (a.summ is None) != (b.summ is None)))):
            st = St({}, {}, ())
            h.acc = self.jv(V(t=self.dacc(a, st), n="V"), V(t=self.dacc(b, st), n="V"), cond)
        for k in set(a.d) | set(b.d):
            if k in a.d and k in b.d:
                h.d[k] = self.jv(a.d[k], b.d[k], cond, cg)
            elif k == "#" and a.kind == "list":
                h.d[k] = self.jv(V(t=self.acc(a), n="V"), V(t=self.acc(b), n="V"), cond)
            else:
                v = a.d.get(k) or b.d.get(k)
                if a.kind == "inst" and a.sym is not None:
                    other = self._lazy_field(a, k)
                    h.d[k] = self.jv(v if k in a.d else other, v if k in b.d else other, cond, cg)
                else:
                    h.d[k] = v.w(g=v.g | cg)
        if a.kind == "dict" and a.sym is None and (a.may or b.may or a.d.keys() != b.d.keys()):
            h.may = {}
            for k in h.d:
                x, y = [m.may.get(k, TRUE) if k in m.d else FALSE for m in (a, b)]
                if x != TRUE or y != TRUE:
                    h.may[k] = x if x == y else ("top", f"join#{next(self.ctr)}") if cond is None else self.cap(t_or([t_and([cond, x]), t_and([t_not(cond), y])]))
        # keep insertion order of a then b
        h.d = {k: h.d[k] for k in list(a.d) + [x for x in b.d if x not in a.d]}
        if a.items is not None and b.items is not None and len(a.items) == len(b.items):
            h.items = [self.jv(x, y, cond, cg) for x, y in zip(a.items, b.items)]
        elif a.items is not None or b.items is not None:
            if a.kind == b.kind and a.kind in ("list", "set") and "#" not in h.d and cond is not None:
                h.d["#"] = self.jv(V(t=self.acc(a), n="V"), V(t=self.acc(b), n="V"), cond)
            h.items = None
            s = None
            for x in (a.items or []) + (b.items or []):
                s = self.jv(s, x) if s is not None else x
            for x in (a.summ, b.summ):
                if x is not None:
                    s = x if s is None else self.jv(s, x)
            h.summ = s
            return h
        if a.summ is not None or b.summ is not None:
            h.summ = self.jv(a.summ, b.summ, cond, cg)
        return h

    def jst(self, a, b, cond=None, cg=EMPTY):
        """Join b into a fresh state (either may be dead)."""
        if a is None or a.dead:
            return b
        if b is None or b.dead:
            return a
        env = {}
        keep, self.jmemo = self.jmemo, {}
        for k in list(a.env) + [x for x in b.env if x not in a.env]:
            if k in a.env and k in b.env:
                env[k] = self.jv(a.env[k], b.env[k], cond, cg)
            else:
                v = a.env.get(k) or b.env.get(k)
                env[k] = v
        heap = dict(a.heap)
        for k, h in b.heap.items():
            if k in heap:
                if heap[k] is not h:
                    heap[k] = self.jh(heap[k], h, cond, cg)
            else:
                heap[k] = h
        self.jmemo = keep
        pc = []
        for x, y in zip(a.pc, b.pc):
            if x == y:
                pc.append(x)
            else:
                break
        r = self.join_pc(a.pc[len(pc):], b.pc[len(pc):])
        if r is not None:
            pc.append(r)
        drawn = a.drawn if a.drawn is b.drawn else {k: max(a.drawn.get(k, 0), b.drawn.get(k, 0)) for k in (*a.drawn, *b.drawn)}
        return St(env, heap, tuple(pc), drawn=drawn)

    def join_pc(self, a, b):
        """What both sides of a join still know: only kept when a branch ended early (more than the split itself)."""
        if not a or not b or len(a) + len(b) < 3 or any(x[0] in ("exc", "inloop") for x in a + b):
            return None
        if a[0] == t_not(b[0]):
            alts = [t_or([t_not(a[0]), t_and(list(a[1:]))]), t_or([t_not(b[0]), t_and(list(b[1:]))])]
            r = t_and([x for x in alts if x != TRUE])
        else:
            r = t_or([t_and(list(a)), t_and(list(b))])
        return None if r in (TRUE, FALSE) or tsize(r, 300) > 300 else r

    # ------------------------------------------------------------------ events
    def ev(self, kind, name, node, st, recv=None, args=(), kw=None, star=None, extra=None, targets=None, ret=None):
        fr = self.frames[-1] if self.frames else None
        if self.mute:
            stack = ()
        else:
            stack = self._stk
            if stack is None:
                stack = self._stk = tuple([f.qual for f in self.stack])
        e = Event(kind, name, fr.func.qual if fr and fr.func else "?", fr.mod.rel if fr else "?", getattr(node, "lineno", 0), st.pc, recv,
                  list(args), dict(kw) if kw else {}, star, next(self.ctr), stack, extra, targets, ret, tuple(self.loops), tuple(self.trys))
        if not self.mute:
            self.events.append(e)
        return e

    # ------------------------------------------------------------------ statements
    def exec_body(self, body, st):
        for s in body:
            if st.dead:
                return
            self.steps += 1
            if self.steps > self.max_steps:
                raise Budget()
            self.exec_stmt(s, st)

    def exec_stmt(self, s, st):
        m = getattr(self, "s_" + type(s).__name__, None)
        if m is None:
            return
        m(s, st)

    def s_Expr(self, s, st):
        if isinstance(s.value, (ast.Yield, ast.YieldFrom)):
            self.e_Yield(s.value, st)
            return
        self.ev_expr(s.value, st)

    def s_Pass(self, s, st):
        pass

    def s_Global(self, s, st):
        pass

    def s_Import(self, s, st):
        for al in s.names:
            if al.asname:
                st.env[al.asname] = self.from_resolved(self.prog.resolve_dotted(al.name))
            else:
                top = al.name.split(".")[0]
                st.env[top] = self.from_resolved(self.prog.resolve_dotted(top))

    def s_ImportFrom(self, s, st):
        base = s.module or ""
        for al in s.names:
            st.env[al.asname or al.name] = self.from_resolved(self.prog.resolve_dotted(f"{base}.{al.name}"))

    def s_FunctionDef(self, s, st):
        fr = self.frames[-1]
        f = Func(s, fr.mod, None, f"{fr.func.qual if fr.func else fr.mod.name}.<locals>.{s.name}", outer=fr.func)
        f.cls = None
        oid = f"clo{next(self.ctr)}"
        st.heap[oid] = HObj("closure", extra=(f, fr, None))
        v = V(a=frozenset([("obj", oid)]), t=("s", f"<fn {s.name}>"), n="V")
        st.env[s.name] = v
        # late-binding closure: keep a live reference to the env dict at definition time
        st.heap[oid].extra = (f, fr, st.env)

    def s_ClassDef(self, s, st):
        st.env[s.name] = self.top("localclass")

    def s_Return(self, s, st):
        v = self.ev_expr(s.value, st) if s.value is not None else self.const(None)
        fr = self.frames[-1]
        self.ev("return", "return", s, st, args=[v])
        fr.returns.append((v, st.copy()))
        st.dead = True

    def s_Raise(self, s, st):
        name = "reraise"
        cause = None
        if s.exc is not None:
            e = s.exc
            if isinstance(e, ast.Call):
                name = ast.unparse(e.func)
                for a in e.args:
                    self.ev_expr(a, st)
            else:
                name = ast.unparse(e)
        self.ev("raise", name, s, st, extra=cause)
        st.dead = True

    def s_Assert(self, s, st):
        c = self.ev_expr(s.test, st)
        t = self.truth(c, st)
        p = self.pred(c, st)
        self.ev("raise", "AssertionError", s, self._with_pc(st, t_not(p)))
        if t is False:
            st.dead = True
        else:
            self.refine(s.test, True, st, p)

    def _with_pc(self, st, p):
        s2 = st.copy()
        s2.pc = st.pc + (p,)
        return s2

    def s_Delete(self, s, st):
        for t in s.targets:
            if isinstance(t, ast.Subscript):
                v = self.ev_expr(t.value, st)
                k = self.ev_expr(t.slice, st)
                self.ev("mutate", "del", s, st, recv=v, args=[k])
                so = self.single_obj(v, st)
                if so and so[1].kind == "dict":
                    h = so[1].clone()
                    if k.t[0] != "k" or h.acc is not None:
                        h.acc = V(t=self.cap(("mcall", "pop", self.dacc(h, st), self.T(k, st))), n="V")
                    if k.t[0] == "k":
                        h.d.pop(k.t[1], None)
                    st.heap[so[0]] = h
            elif isinstance(t, ast.Name):
                st.env.pop(t.id, None)
            elif isinstance(t, ast.Attribute):
                v = self.ev_expr(t.value, st)
                self.ev("setattr", t.attr, s, st, recv=v, args=[self.const(None)], extra="del")

    def s_Assign(self, s, st):
        v = self.ev_expr(s.value, st)
        for t in s.targets:
            self.assign(t, v, st, s)

    def s_AnnAssign(self, s, st):
        if s.value is not None:
            self.assign(s.target, self.ev_expr(s.value, st), st, s)

    def s_AugAssign(self, s, st):
        cur = self.ev_expr(self._load(s.target), st)
        rhs = self.ev_expr(s.value, st)
        op = INPLACE_OPS.get(type(s.op), "?")
        # A constant / scalar number rebinding is not a mutation; arrays are mutated in place.
        so = self.single_obj(cur, st)
        if so and so[1].kind == "list" and op == "+":
            self.ev("mutate", "+=", s, st, recv=cur, args=[rhs])
            self._list_extend(so, rhs, st)
            return
        res = self.binop(op, cur, rhs, st)
        if isinstance(s.target, ast.Name):
            self.ev("mutate", f"{op}=", s, st, recv=cur, args=[rhs], extra="augname")
            st.env[s.target.id] = res.w(o=cur.o)
        else:
            if isinstance(s.target, ast.Attribute):
                self.ev("mutate", f"{op}=", s, st, recv=cur, args=[rhs], extra="augattr")
            self.assign(s.target, res.w(o=cur.o), st, s)

    def _load(self, t):
        import copy
        t2 = copy.copy(t)
        t2.ctx = ast.Load()
        return t2

    def assign(self, t, v, st, node):
        if isinstance(t, ast.Name):
            st.env[t.id] = v
        elif isinstance(t, (ast.Tuple, ast.List)):
            self.unpack(t.elts, v, st, node)
        elif isinstance(t, ast.Starred):
            self.assign(t.value, v, st, node)
        elif isinstance(t, ast.Attribute):
            o = self.ev_expr(t.value, st)
            self.set_attr(o, t.attr, v, st, node)
        elif isinstance(t, ast.Subscript):
            o = self.ev_expr(t.value, st)
            k = self.ev_expr(t.slice, st)
            self.set_item(o, k, v, st, node, t.value)

    def unpack(self, elts, v, st, node):
        tup = [a for a in v.a if a[0] == "tup"]
        so = self.single_obj(v, st)
        items = None
        if len(tup) == 1 and len(v.a) == 1:
            items = list(tup[0][1])
        elif so and so[1].kind == "list" and so[1].items is not None:
            items = so[1].items
        if items is not None and len(items) == len(elts) and not any(isinstance(e, ast.Starred) for e in elts):
            for e, x in zip(elts, items):
                self.assign(e, x, st, node)
            return
        for i, e in enumerate(elts):
            self.assign(e, self.get_item(v, self.const(i), st, node), st, node)

    def set_attr(self, o, name, v, st, node):
        self.ev("setattr", name, node, st, recv=o, args=[v])
        for oid, h in self.objs(o, st):
            if h.kind == "inst" and h.cls is not None:
                f = h.cls.find_setter(name)
                if f is not None:
                    self.call_func(f, [o, v], {}, None, st, node)
                    continue
            h2 = h.clone()
            if len(o.a) == 1:
                h2.d[name] = v
            else:
                h2.d[name] = self.jv(h.d.get(name), v) if name in h.d else v
            st.heap[oid] = h2

    def set_item(self, o, k, v, st, node, target_expr=None):
        self.ev("setitem", "[]=", node, st, recv=o, args=[k, v], extra=target_expr)
        so = self.single_obj(o, st)
        if so:
            oid, h = so
            if h.kind == "dict":
                h2 = h.clone()
                if k.t[0] != "k" or h.acc is not None or h.summ is not None:
                    h2.acc = V(t=self.cap(("cat", self.dacc(h, st), ("list", ("pair", self.T(k, st), self.R(v, st))))), n="V")
                if k.t[0] == "k":
                    h2.d[k.t[1]] = v
                    h2.may = {x: y for x, y in h.may.items() if x != k.t[1]}
                else:
                    same = h2.summ is not None and len(v.a) == 1 and self.T(v, st) == self.T(h2.summ, st)
                    old = h2.summ
                    h2.summ = self.jv(old, v) if old is not None and not same else v.w()
                    if old is not None and old.t[0] == "mu" and old.t[2] == f"{oid}.*":
                        h2.summ = h2.summ.w(t=self.R(v, st), **({} if old.a else {"a": v.a, "n": v.n}))
                    h2.extra = ("keyed", k.t)
                    h2.summ = h2.summ.w(g=h2.summ.g | k.g)
                st.heap[oid] = h2
                return
            if h.kind == "list":
                h2 = h.clone()
                if h2.items is not None and k.t[0] == "k" and isinstance(k.t[1], int) and -len(h2.items) <= k.t[1] < len(h2.items):
                    h2.items[k.t[1]] = v
                else:
                    if self.T(o, st)[0] != "bag" or "#" in h.d:
                        h2.d["#"] = V(t=self.cap(("store", self.acc(h, st), self.T(k, st), self.T(v, st))), n="V")
                    if h2.items is not None:
                        s = v
                        for x in h2.items:
                            s = self.jv(x, s)
                        h2.items, h2.summ = None, s
                    else:
                        h2.summ = self.jv(h2.summ, v) if h2.summ is not None else v
                st.heap[oid] = h2
                return
            if h.kind == "inst" and h.cls is not None:
                f = h.cls.find("__setitem__")
                if f is not None:
                    self.call_func(f, [o, k, v], {}, None, st, node)
                    return
        # array-like: update the binding of the target expression
        nt = self.cap(("store", self.T(o, st), self.T(k, st), self.T(v, st)))
        nv = V(a=o.a, t=nt, g=o.g | self.all_tags(v, st) | self.all_tags(k, st), o=o.o, n="V")
        e = target_expr
        view = False
        while isinstance(e, ast.Attribute) and e.attr in ("loc", "iloc", "at", "values"):
            e = e.value
            view = True
        if isinstance(e, ast.Name):
            if e.id in st.env:
                self.realias(st, st.env[e.id] if view else o, nv)
                st.env[e.id] = nv
        elif isinstance(e, ast.Attribute):
            base = self.ev_quiet(e.value, st)
            for oid, h in self.objs(base, st):
                h2 = h.clone()
                h2.d[e.attr] = nv
                st.heap[oid] = h2
        elif isinstance(e, ast.Subscript):
            base = self.ev_quiet(e.value, st)
            kk = self.ev_quiet(e.slice, st)
            so2 = self.single_obj(base, st)
            if so2 and so2[1].kind in ("dict", "list"):
                self.mute += 1
                self.set_item(base, kk, nv, st, node, e.value)
                self.mute -= 1

    def realias(self, st, old, new):
        """The other names and fields that hold the same array see an in-place change of it."""
        if old.t is None:
            return
        # a field of an object read before anything stored it: every read of it gives the same array
        field = old.t if old.t[0] == "attr" and len(old.t) == 3 and old.o else None

        def same(v):
            return v is old or field is not None and v.t == field and v.o == old.o and not v.a - old.a

        for k, v in st.env.items():
            if same(v):
                st.env[k] = new
        for oid, h in list(st.heap.items()):
            if h.kind == "inst":
                ks = [k for k, v in h.d.items() if same(v)]
                if field is not None and field[2] not in h.d and field[1] == (h.sym or ("s", h.label or "obj")):
                    ks.append(field[2])
                if ks:
                    h2 = h.clone()
                    for k in ks:
                        h2.d[k] = new
                    st.heap[oid] = h2

    def ev_quiet(self, e, st):
        self.mute += 1
        try:
            return self.ev_expr(e, st)
        finally:
            self.mute -= 1

    # -- branches
    def s_If(self, s, st):
        c = self.ev_expr(s.test, st)
        t = self.truth(c, st)
        p = self.pred(c, st)
        if t is True:
            self.refine(s.test, True, st, None)
            self.exec_body(s.body, st)
            return
        if t is False:
            self.refine(s.test, False, st, None)
            self.exec_body(s.orelse, st)
            return
        a, b = st.copy(), st.copy()
        self.refine(s.test, True, a, p)
        self.refine(s.test, False, b, t_not(p))
        self.exec_body(s.body, a)
        self.exec_body(s.orelse, b)
        if a.dead and b.dead:
            st.dead = True
            return
        st.assign_from(self.jst(a, b, p, self.all_tags(c, st)))

    def s_Match(self, s, st):
        c = self.ev_expr(s.subject, st)
        cur = st.copy()
        out = None
        exhausted = False
        for case in s.cases:
            br = cur.copy()
            p, irref = self.match_pat(case.pattern, c, br)
            if case.guard is not None:
                gv = self.ev_expr(case.guard, br)
                p = t_and([p, self.pred(gv, br)])
                irref = False
            br.pc = br.pc + (p,)
            self.exec_body(case.body, br)
            out = self.jst(br, out, p, c.g) if out is not None else (br if not br.dead else None)
            cur.pc = cur.pc + (t_not(p),)
            if irref:
                exhausted = True
                break
        if not exhausted:
            out = cur if out is None else self.jst(out, cur, None, c.g)
        if out is None:
            st.dead = True
        else:
            st.assign_from(out)

    def match_pat(self, pat, c, st):
        if isinstance(pat, ast.MatchValue):
            k = self.ev_expr(pat.value, st)
            return ("cmp", "==", c.t, k.t), False
        if isinstance(pat, ast.MatchSingleton):
            return ("cmp", "is", c.t, K(pat.value)), False
        if isinstance(pat, ast.MatchOr):
            ps = [self.match_pat(x, c, st) for x in pat.patterns]
            return _or([x[0] for x in ps]), any(x[1] for x in ps)
        if isinstance(pat, ast.MatchAs):
            if pat.name:
                st.env[pat.name] = c
            if pat.pattern is None:
                return TRUE, True
            return self.match_pat(pat.pattern, c, st)
        return ("top", f"pat#{next(self.ctr)}"), False

    def refine(self, test, truth, st, p):
        if p is not None and p not in (TRUE, FALSE):
            st.pc = st.pc + (p,)
        self._refine(test, truth, st)

    def _refine(self, test, truth, st):
        if isinstance(test, ast.UnaryOp) and isinstance(test.op, ast.Not):
            return self._refine(test.operand, not truth, st)
        if isinstance(test, ast.BoolOp):
            if (isinstance(test.op, ast.And) and truth) or (isinstance(test.op, ast.Or) and not truth):
                for v in test.values:
                    self._refine(v, truth, st)
            return
        if isinstance(test, ast.NamedExpr):
            return self._refine(test.target, truth, st)
        if isinstance(test, ast.Compare) and len(test.ops) == 1 and isinstance(test.ops[0], (ast.Is, ast.IsNot)):
            if isinstance(test.comparators[0], ast.Constant) and test.comparators[0].value is None:
                isnone = isinstance(test.ops[0], ast.Is) == truth
                self._set_none(test.left, "N" if isnone else "V", st)
            return
        if isinstance(test, ast.Name) and test.id in st.env:
            self._refine_flag(st.env[test.id].t, truth, st)
        if isinstance(test, (ast.Name, ast.Attribute)) and truth:
            self._set_none(test, "V", st)
        if isinstance(test, ast.Call) and isinstance(test.func, ast.Name) and test.func.id == "isinstance" and truth and test.args:
            self._set_none(test.args[0], "V", st)

    def _refine_flag(self, t, truth, st):
        """A flag holding `x is None` (or a combination): what its value says about the variables holding x."""
        if not isinstance(t, tuple) or not t:
            return
        if t[0] == "not":
            return self._refine_flag(t[1], not truth, st)
        if t[0] in ("and", "or") and truth == (t[0] == "and"):
            for x in t[1:]:
                self._refine_flag(x, truth, st)
            return
        if t[0] == "cmp" and len(t) == 4 and t[3] == NONE and t[1] in ("is", "isnot"):
            isnone = (t[1] == "is") == truth
            for k, v in list(st.env.items()):
                if v.t == t[2]:
                    st.env[k] = self.const(None).w(g=v.g) if isnone else v.w(n="V", t=self._strip_none(v.t))

    def _set_none(self, e, n, st):
        if isinstance(e, ast.NamedExpr):
            e = e.target
        if isinstance(e, ast.Name) and e.id in st.env:
            v = st.env[e.id]
            st.env[e.id] = self.const(None).w(g=v.g) if n == "N" else v.w(n="V", t=self._strip_none(v.t))
        elif isinstance(e, ast.Attribute):
            base = self.ev_quiet(e.value, st)
            so = self.single_obj(base, st)
            if so and so[1].kind == "inst":
                v = self.ev_quiet(e, st)
                h = so[1].clone()
                h.d[e.attr] = self.const(None).w(g=v.g) if n == "N" else v.w(n="V", t=self._strip_none(v.t))
                st.heap[so[0]] = h

    def _strip_none(self, t):
        # value known not None: drop None arms of gates
        while isinstance(t, tuple) and t[0] == "ite":
            if t[2] == NONE:
                t = t[3]
            elif t[3] == NONE:
                t = t[2]
            else:
                break
        return t

    # -- loops
    def s_For(self, s, st):
        it = self.ev_expr(s.iter, st)
        items = self.exact_items(it, st)
        self.ev("iter", "for", s, st, recv=it)
        fr = self.frames[-1]
        if items is not None and len(items) <= 24:
            fr.loopctl.append([])
            brk = []
            npc0 = len(st.pc)
            for x in items:
                if st.dead:
                    break
                fr.loopctl[-1] = []
                npc = len(st.pc)
                self.assign(s.target, x, st, s)
                self.exec_body(s.body, st)
                conts = [b for k, b in fr.loopctl[-1] if k == "continue"]
                brk += [b for k, b in fr.loopctl[-1] if k == "break"]
                self.rejoin(st, conts, npc)
            fr.loopctl.pop()
            if s.orelse and not st.dead:
                self.exec_body(s.orelse, st)
            self.rejoin(st, brk, npc0)
            return
        L = ("L", f"{fr.func.qual if fr.func else ''}:{s.lineno}:{s.col_offset}:{len(self.loops)}")
        self.loop(s, st, L, lambda q: self.assign(s.target, self.element(it, L, q, s), q, s), it.g)

    s_AsyncFor = s_For

    def rejoin(self, st, outs, npc):
        """Join the states that left a body early (continue, break) into the state at its end; earlier exits take precedence."""
        for o in reversed(outs):
            if st.dead:
                st.assign_from(o)
                continue
            ps = o.pc[npc:]
            c = t_and(ps) if ps and all(isinstance(x, tuple) and x[0] not in ("inloop", "exc") for x in ps) else None
            st.assign_from(self.jst(o, st, c))

    @staticmethod
    def since(o, npc):
        """The conditions a state has met since a point (None: not known)."""
        ps = o.pc[npc:]
        return t_and(ps) if all(isinstance(x, tuple) and x[0] not in ("inloop", "exc") for x in ps) else None

    def counted(self, s, st):
        """`while i < n: ...; i += 1` with a counter and bound nothing else changes, as (counter, bound, body)."""
        t = s.test
        if not (isinstance(t, ast.Compare) and len(t.ops) == 1 and s.body) or s.orelse:
            return None
        i, n, op = t.left, t.comparators[0], t.ops[0]
        if isinstance(op, ast.Gt):
            i, n, op = n, i, ast.Lt()
        last = s.body[-1]
        if not (isinstance(op, ast.Lt) and isinstance(i, ast.Name) and i.id in st.env):
            return None
        if isinstance(last, ast.AugAssign):
            step = isinstance(last.op, ast.Add) and isinstance(last.target, ast.Name) and last.target.id == i.id and last.value
        else:
            v = getattr(last, "value", None)
            step = (isinstance(last, ast.Assign) and len(last.targets) == 1 and isinstance(last.targets[0], ast.Name) and last.targets[0].id == i.id and isinstance(v, ast.BinOp)
                    and isinstance(v.op, ast.Add) and isinstance(v.left, ast.Name) and v.left.id == i.id and v.right)
        if not (isinstance(step, ast.Constant) and type(step.value) is int and step.value == 1):
            return None
        b = n.args[0] if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id == "len" and len(n.args) == 1 and not n.keywords else n
        if not isinstance(b, (ast.Name, ast.Constant)):
            if not (isinstance(b, ast.Attribute) and isinstance(b.value, ast.Name)):
                return None
        names = {x.id for x in ast.walk(b) if isinstance(x, ast.Name)} | {i.id}
        own = []

        def scan(x, inner):
            if isinstance(x, ast.Continue) and not inner:
                own.append(x)
            for y in ast.iter_child_nodes(x):
                scan(y, inner or isinstance(x, (ast.For, ast.While)))
        for x in s.body[:-1]:
            scan(x, False)
            for y in ast.walk(x):
                if isinstance(y, ast.Name) and isinstance(y.ctx, (ast.Store, ast.Del)) and y.id in names:
                    return None
                if isinstance(y, ast.Attribute) and isinstance(b, ast.Attribute) and y.attr == b.attr and not isinstance(y.ctx, ast.Load):
                    return None
                if b is not n and isinstance(y, ast.Call) and isinstance(y.func, ast.Attribute) and ast.unparse(y.func.value) == ast.unparse(b):
                    return None         # len() of something the body may grow
        return None if own else (i, n, s.body[:-1])

    def s_While(self, s, st):
        c = self.counted(s, st)
        if c is not None:
            i, n, body = c
            start = st.env[i.id]
            args = [n] if start.t == ("k", 0) else [i, n]
            f = ast.copy_location(ast.For(target=ast.Name(i.id, ast.Store()), iter=ast.Call(ast.Name("range", ast.Load()), args, []), body=body or [ast.Pass()], orelse=[], type_comment=None), s)
            ast.fix_missing_locations(f)
            self.s_For(f, st)
            if not st.dead:
                if any(isinstance(x, ast.Break) for y in body for x in ast.walk(y)):
                    st.env[i.id] = self.top("counter")
                else:
                    end = self.ev_quiet(n, st)
                    st.env[i.id] = end if start.t == ("k", 0) and isinstance(n, ast.Call) else end.w(t=self.cap(t_ite(("cmp", "<", start.t, end.t), end.t, start.t)))
            return
        fr = self.frames[-1]
        L = ("L", f"{fr.func.qual if fr.func else ''}:{s.lineno}:{s.col_offset}:{len(self.loops)}")

        ctl = []

        def pre(q):
            c = self.ev_expr(s.test, q)
            del ctl[:]
            if self.truth(c, q) is not True:
                ctl.append(self.pred(c, q))
                self.refine(s.test, True, q, self.pred(c, q))

        self.loop(s, st, L, pre, EMPTY, ctl)

    def loop(self, s, st, L, pre, cg, ctl=()):
        """Zero or more passes of a body; ctl holds the condition of a while loop (once pre has run)."""
        fr = self.frames[-1]
        self.loops.append(L)
        base = st.copy()

        def one(start):
            q = start.copy()
            q.pc = q.pc + (("inloop", L[1]),)
            npc = len(q.pc)
            fr.loopctl.append([])
            pre(q)
            npb = len(q.pc)
            self.exec_body(s.body, q)
            left = fr.loopctl.pop()
            outs = [b for k, b in left if k == "continue"]
            brk = [(b, self.since(b, npb)) for k, b in left if k == "break"]
            self.rejoin(q, outs, npc)
            return q, brk

        self.mute += 1
        nret = len(fr.returns)
        end1, brk1 = one(base)
        fr.returns = fr.returns[:nret]
        self.mute -= 1
        allend = end1
        for b, _ in brk1:
            allend = b if allend.dead else self.jst(allend, b)
        start2 = base.copy()
        if not allend.dead:
            # widen whatever changed (names of one array go on naming one array)
            twin = {}
            for k, v in allend.env.items():
                if k in base.env and (base.env[k] is not v) and (base.env[k].t != v.t or base.env[k].a != v.a):
                    o = base.env[k]
                    ak = (alias_key(o), alias_key(v))
                    if ak in twin:
                        start2.env[k] = twin[ak]
                        continue
                    start2.env[k] = twin[ak] = V(a=o.a | v.a, t=("mu", L[1], k), g=o.g | v.g, o=o.o | v.o, n=o.n if o.n == v.n else "?")
                elif k in base.env and base.env[k] is not v:
                    start2.env[k] = self.jv(base.env[k], v)
            for oid, h in allend.heap.items():
                if oid in base.heap and base.heap[oid] is not h:
                    b = base.heap[oid]
                    hh = self.jh(b, h, None, EMPTY)
                    for f in list(hh.d):
                        if f in h.d and f in b.d and (alias_key(b.d[f]), alias_key(h.d[f])) in twin:
                            hh.d[f] = twin[alias_key(b.d[f]), alias_key(h.d[f])]
                        elif f in h.d and (b.d[f].t != h.d[f].t if f in b.d else f == "#"):
                            hh.d[f] = hh.d[f].w(t=("mu", L[1], f"{oid}.{f}"))
                        elif hh.kind == "dict" and f not in b.d and f != "#":
                            hh.d[f] = hh.d[f].w(t=("mu", L[1], f"{oid}.{f}"))
                    if hh.kind == "dict":
                        new = {f for f in hh.may if h.may.get(f, TRUE) != b.may.get(f, TRUE) or f not in b.d}
                        hh.may = {f: ("truth", ("mu", L[1], f"{oid}.?{f}")) if f in new else m for f, m in hh.may.items()}
                    if hh.kind == "dict" and h.summ is not None and (b.summ is None or b.summ.t != h.summ.t):
                        # a container this loop creates stands for the one created in the next pass
                        new = {x for x in hh.summ.a if x[0] == "obj" and x[1] not in base.heap and x[1] in allend.heap and allend.heap[x[1]].kind in ("dict", "list", "set")}
                        hh.summ = hh.summ.w(t=("mu", L[1], f"{oid}.*"), a=hh.summ.a - new)
                    if hh.kind == "dict" and h.acc is not None and h.acc is not b.acc:
                        hh.acc = V(t=("mu", L[1], f"{oid}.@.#"), n="V")
                        if isinstance(hh.extra, tuple) and hh.extra is not b.extra and hh.extra[0] == "keyed" and (not hh.extra[1] or hh.extra[1][0] != "key"):
                            hh.extra = None     # stored under the key of an earlier pass
                    start2.heap[oid] = hh
                elif oid not in base.heap:
                    start2.heap[oid] = h
        end2, brk2 = one(start2)
        if s.orelse and not end2.dead:
            pass
        res = None
        res = None if end2.dead else end2
        for o, c in reversed(brk2):
            if not o.dead:
                res = o if res is None else self.jst(o, res, c)
        self.loops.pop()
        gates = [(c, "loop end") for c in ctl]
        if brk2:
            gates.append((("top", f"break#{next(self.ctr)}") if any(c is None for _, c in brk2) else t_and([t_not(c) for _, c in brk2]), "loop left"))
        if res is None:
            # body always leaves: fall through with zero iterations
            st.assign_from(base)
            return
        # result: zero or more iterations
        accs = {}
        for k, v in res.env.items():
            if k in base.env and not (base.env[k] is v or (base.env[k].t == v.t and base.env[k].a == v.a)):
                accs[k] = (base.env[k].t, v.t)
        for oid, h in res.heap.items():
            b = base.heap.get(oid)
            if b is not None and b is not h:
                for f in h.d:
                    if f in b.d and b.d[f].t != h.d[f].t:
                        accs[f"{oid}.{f}"] = (b.d[f].t, h.d[f].t)
                    elif h.kind == "dict" and f not in b.d and f != "#":
                        accs[f"{oid}.{f}"] = (("uninit", "key"), h.d[f].t)
                    elif f == "#" and f not in b.d:
                        accs[f"{oid}.{f}"] = (self.acc(b, base), h.d[f].t)
                    if h.kind == "dict" and f != "#":
                        x, y = b.may.get(f, TRUE) if f in b.d else FALSE, h.may.get(f, TRUE)
                        if x != y:
                            accs[f"{oid}.?{f}"] = (x, y)
                if h.kind == "dict" and h.acc is not None and h.acc is not b.acc:
                    accs[f"{oid}.@.#"] = (self.dacc(b, base), h.acc.t)
                if h.kind == "dict" and h.summ is not None and h.summ.t is not None and (b.summ is None or b.summ.t != h.summ.t):
                    accs[f"{oid}.*"] = (b.summ.t if b.summ is not None else ("uninit", "*"), h.summ.t)
        # containers made before the loop and held by a dictionary stay named: they may change later
        kp = {k: base.heap if k.endswith(".@.#") else () for k in accs}
        accs = {k: (self.deref(init, base, 0, kp[k]), self.deref(body, res, 0, kp[k])) for k, (init, body) in accs.items()}
        for k, (init, body) in list(accs.items()):
            # an entry this loop only changes in its own pass is read as it was before the loop
            here = ("elem", ("mu", L[1], k), L[1])
            if own_stores(body, L[1], k) and any(here in subs(b) for _, b in accs.values()):
                m = {here: ("elem", init, L[1])}
                accs = {x: (i, replace(b, m)) for x, (i, b) in accs.items()}
                gates = [(replace(c, m), how) for c, how in gates]
        dep = {}
        for k, (_, body) in accs.items():
            ds, stack = set(), [body, *[c for c, _ in gates]]
            seen = set()
            while stack:
                x = stack.pop()
                if not isinstance(x, tuple) or not x or x in seen:
                    continue
                seen.add(x)
                if x[0] == "mu" and x[1] == L[1]:
                    ds.add(x[2])
                else:
                    stack.extend(y for y in x if isinstance(y, tuple))
            dep[k] = ds & set(accs)

        def lterm(k, init, body):
            init, body = accs.get(k, (init, body))
            for c, how in reversed(gates):
                body = ("ite", c, body, ("x", how))
            todo, clo = [k], {k}
            while todo:
                for d in dep.get(todo.pop(), ()):
                    if d not in clo:
                        clo.add(d)
                        todo.append(d)
            clo.discard(k)
            return ("loop", L[1], k, init, body, *[("acc", d, *accs[d]) for d in sorted(clo)])

        out = base.copy()
        twin = {}
        for k, v in res.env.items():
            if k in base.env:
                b = base.env[k]
                ak = (alias_key(b), alias_key(v))
                if ak in twin:
                    out.env[k] = twin[ak]
                elif b is v or (b.t == v.t and b.a == v.a):
                    out.env[k] = V(a=b.a | v.a, t=b.t, g=b.g | v.g, o=b.o | v.o, n=b.n if b.n == v.n else "?")
                else:
                    out.env[k] = twin[ak] = V(a=b.a | v.a, t=self.cap(lterm(k, b.t, v.t)), g=b.g | v.g | cg, o=b.o | v.o, n=b.n if b.n == v.n else "?")
            else:
                out.env[k] = v.w(g=v.g | cg)
        for oid, h in res.heap.items():
            if oid in base.heap:
                b = base.heap[oid]
                if b is not h:
                    hh = self.jh(b, h, None, cg)
                    for f in list(hh.d):
                        if f in b.d and f in h.d and (alias_key(b.d[f]), alias_key(h.d[f])) in twin:
                            hh.d[f] = twin[alias_key(b.d[f]), alias_key(h.d[f])]
                        elif f in b.d and f in h.d and b.d[f].t != h.d[f].t:
                            hh.d[f] = hh.d[f].w(t=self.cap(lterm(f"{oid}.{f}", b.d[f].t, h.d[f].t)))
                        elif hh.kind == "dict" and f not in b.d and f"{oid}.{f}" in accs:
                            hh.d[f] = hh.d[f].w(t=self.cap(lterm(f"{oid}.{f}", *accs[f"{oid}.{f}"])))
                        elif f == "#" and f in h.d and f not in b.d:
                            hh.d[f] = hh.d[f].w(t=self.cap(lterm(f"{oid}.{f}", self.acc(b, base), h.d[f].t)))
                    hh.may = {f: ("truth", self.cap(lterm(f"{oid}.?{f}", *accs[f"{oid}.?{f}"]))) if f"{oid}.?{f}" in accs else m for f, m in hh.may.items()}
                    if f"{oid}.@.#" in accs:
                        hh.acc = V(t=self.cap(lterm(f"{oid}.@.#", *accs[f"{oid}.@.#"])), n="V")
                    if f"{oid}.*" in accs:
                        fresh = b.summ is None or b.summ.t[0] == "mu" and str(b.summ.t[2]).endswith(".*")
                        hh.summ = hh.summ.w(t=h.summ.t if fresh and ("mu", L[1], f"{oid}.*") not in subs(h.summ.t) else self.cap(lterm(f"{oid}.*", *accs[f"{oid}.*"])))
                    if b.kind == "list" and b.items == [] and h.summ is not None:
                        hh.items, hh.summ = None, h.summ
                    out.heap[oid] = hh
            else:
                out.heap[oid] = h
        out.pc = base.pc
        st.assign_from(out)
        if s.orelse:
            self.exec_body(s.orelse, st)

    def s_Break(self, s, st):
        fr = self.frames[-1]
        if fr.loopctl:
            fr.loopctl[-1].append(("break", st.copy()))
        st.dead = True

    def s_Continue(self, s, st):
        fr = self.frames[-1]
        if fr.loopctl:
            fr.loopctl[-1].append(("continue", st.copy()))
        st.dead = True

    def s_With(self, s, st):
        for it in s.items:
            v = self.ev_expr(it.context_expr, st)
            self.ev("with", "with", s, st, recv=v)
            if it.optional_vars is not None:
                self.assign(it.optional_vars, v, st, s)
        self.exec_body(s.body, st)

    def s_Try(self, s, st):
        pre = st.copy()
        names = []
        for h in s.handlers:
            names.append("*" if h.type is None else ast.unparse(h.type))
        self.trys.append(tuple(names))
        self.exec_body(s.body, st)
        self.trys.pop()
        if not st.dead and s.orelse:
            self.exec_body(s.orelse, st)
        outs = [st.copy()] if not st.dead else []
        conds = [None] * len(outs)
        for i, h in enumerate(s.handlers):
            q = self.jst(pre.copy(), outs[0].copy()) if outs and i >= 0 and not st.dead else pre.copy()
            q.pc = pre.pc + (("exc", names[i]),)
            if h.name:
                q.env[h.name] = self.top("exc").w(n="V")
            self.ev("handler", names[i], h, q, extra=h)
            self.exec_body(h.body, q)
            if not q.dead:
                outs.append(q)
                conds.append(("exc", names[i]))
        if not outs:
            dead = st.copy()
            dead.dead = False
            if s.finalbody:
                q = pre.copy()
                self.exec_body(s.finalbody, q)
            st.dead = True
            return
        r = outs[0]
        for o, c in zip(outs[1:], conds[1:]):
            r = self.jst(o, r, c)
        st.assign_from(r)
        if s.finalbody:
            self.exec_body(s.finalbody, st)

    s_TryStar = s_Try

    # ------------------------------------------------------------------ iteration
    def exact_items(self, it, st):
        if len(it.a) == 1:
            a = next(iter(it.a))
            if a[0] == "tup":
                return list(a[1])
            if a[0] == "obj" and a[1] in st.heap:
                h = st.heap[a[1]]
                if h.kind in ("list", "set") and h.items is not None:
                    return list(h.items)
                if h.kind == "dict" and h.summ is None and not (h.extra and h.extra[0] == "keyed"):
                    return [self.const(k) for k in h.d]
            if a[0] == "iter":
                kind, args = a[1], a[2]
                if kind == "enumerate":
                    xs = self.exact_items(args[0], st)
                    if xs is not None:
                        return [self.mk_tuple([self.const(i), x]) for i, x in enumerate(xs)]
                elif kind == "zip":
                    xss = [self.exact_items(x, st) for x in args]
                    if all(x is not None for x in xss) and xss:
                        return [self.mk_tuple(list(t)) for t in zip(*xss)]
                elif kind in ("reversed",):
                    xs = self.exact_items(args[0], st)
                    return None if xs is None else xs[::-1]
                elif kind == "sorted":
                    xs = self.exact_items(args[0], st)
                    if xs is not None and all(x.t[0] == "k" for x in xs):
                        try:
                            return sorted(xs, key=lambda x: x.t[1])
                        except TypeError:
                            return xs
                    return None
                elif kind in ("keys", "values", "items"):
                    so = self.single_obj(args[0], st)
                    if so and so[1].kind == "dict" and so[1].summ is None:
                        d = so[1].d
                        if kind == "keys":
                            return [self.const(k) for k in d]
                        if kind == "values":
                            return list(d.values())
                        return [self.mk_tuple([self.const(k), v]) for k, v in d.items()]
                elif kind == "range":
                    if all(x.t[0] == "k" and isinstance(x.t[1], int) for x in args):
                        r = range(*[x.t[1] for x in args])
                        if len(r) <= 24:
                            return [self.const(i) for i in r]
        return None

    def element(self, it, L, st, node):
        """Abstract element of an iterable in loop L."""
        for a in it.a:
            if a[0] == "iter" and len(it.a) == 1:
                kind, args = a[1], a[2]
                if kind == "enumerate":
                    ix = V(t=("ix", L[1], ("call", "len", self.T(args[0], st))), g=EMPTY, n="V")
                    return self.mk_tuple([ix, self.element(args[0], L, st, node)])
                if kind == "zip":
                    return self.mk_tuple([self.in_order(self.element(x, L, st, node)) for x in args])
                if kind == "range":
                    g = frozenset().union(*[x.g for x in args]) if args else EMPTY
                    if len(args) == 1:
                        return V(t=("ix", L[1], self.T(args[0], st)), g=EMPTY, n="V")
                    return V(t=("elem", ("call", "range", *[x.t for x in args]), L[1]), g=g, n="V")
                if kind in ("reversed", "sorted"):
                    e = self.element(args[0], L, st, node)
                    return e.w(t=("elem", it.t if it.t[:2] == ("call", kind) else ("call", kind, args[0].t), L[1]))
                if kind == "items":
                    so = self.single_obj(args[0], st)
                    if so and so[1].kind == "dict":
                        kt = self.shown_dict(args[0], so[1], st)
                        if kt is not None:
                            k = V(t=("key", kt, L[1]), g=args[0].g, n="V")
                            return self.mk_tuple([k, so[1].summ.w(t=self.cap(("item", kt, k.t)))])
                        k = V(t=("key", self.keyset(args[0], so[1]), L[1]), g=args[0].g, n="V")
                        return self.mk_tuple([k, self._dict_get(args[0], k, k.t, *so, st)])
                    kt = self.T(args[0], st)
                    return self.mk_tuple([V(t=("key", kt, L[1]), g=args[0].g, n="V"),
                                          V(t=("item", kt, ("key", kt, L[1])), g=args[0].g, o=args[0].o)])
                if kind == "keys":
                    return V(t=("key", self.T(args[0], st), L[1]), g=args[0].g, n="V")
                if kind == "values":
                    so = self.single_obj(args[0], st)
                    if so and so[1].kind == "dict":
                        k = V(t=("key", self.keyset(args[0], so[1]), L[1]), g=args[0].g, n="V")
                        return self._dict_get(args[0], k, k.t, *so, st)
                    kt = self.T(args[0], st)
                    return V(t=("item", kt, ("key", kt, L[1])), g=args[0].g, o=args[0].o)
        so = self.single_obj(it, st)
        if so:
            oid, h = so
            if h.kind in ("list", "set"):
                if h.items is not None:
                    s = None
                    for x in h.items:
                        s = x if s is None else self.jv(s, x)
                    return (s or self.top("empty")).w(t=("elem", self.T(it, st), L[1]))
                if h.summ is not None:
                    return h.summ
            if h.kind == "dict":
                return V(t=("key", self.shown_dict(it, h, st) or self.keyset(it, h), L[1]), g=it.g, n="V")
            if h.kind == "inst" and h.cls is not None:
                f = h.cls.find("__iter__")
                if f is not None:
                    r = self.call_func(f, [it], {}, None, st, node)
                    so2 = self.single_obj(r, st)
                    if so2 and so2[1].kind == "list" and (so2[1].summ is not None):
                        return so2[1].summ
                    return self.element(r, L, st, node) if r.a != it.a else V(t=("elem", it.t, L[1]), g=it.g, o=it.o)
        t = it.t
        if isinstance(t, tuple) and t[0] == "bag":
            return V(t=t[1], g=it.g, o=it.o)
        return V(t=("elem", self.T(it, st), L[1]), g=it.g, o=it.o)

    @staticmethod
    def in_order(v):
        """An element met in step with others: its place in a sorted sequence matters."""
        t = v.t
        if isinstance(t, tuple) and t[0] == "elem" and t[1][0] == "call" and t[1][1] in ("sorted", "numpy.sort"):
            return v.w(t=("elem", ("call", "paired", t[1]), *t[2:]))
        return v

    def shown_dict(self, v, h, st):
        """The contents of a dictionary whose entries have no common term, when what was stored is known."""
        if h.acc is None or h.summ is None or h.extra is not None or not any(x and x[0] == "top" for x in subs(h.summ.t)) or any(x and x[0] == "top" for x in subs(h.acc.t)):
            return None
        t = self.T(v, st)
        if t[0] != "dictof":
            return None
        own = {x[1] for x in subs(t) if x and x[0] == "loop"}
        return t if not any(x and (x[0] == "top" or x[0] == "mu" and x[1] not in own) for x in subs(t)) else None

    def keyset(self, v, h):
        """What the keys of a dictionary are (without its values)."""
        if v.t[0] == "s" and str(v.t[1]).startswith("<"):
            dyn = [h.extra[1]] if isinstance(h.extra, tuple) and len(h.extra) == 2 and h.extra[0] == "keyed" and h.extra[1] else []
            if h.summ is None or dyn:
                return ("keys", *[K(k) for k in h.d], *dyn)
            if h.acc is None and h.extra is None and h.summ.t[0] in ("s", "starkw") and not str(h.summ.t[1]).startswith("<"):
                return ("keys", *[K(k) for k in h.d], h.summ.t)     # the keyword arguments of the caller
        return v.t

    def _dict_any(self, h):
        s = h.summ
        for x in h.d.values():
            s = x if s is None else self.jv(s, x)
        return s or self.top("emptydict")

    # ------------------------------------------------------------------ truth / predicates
    def pred(self, c, st):
        t = self.T(c, st)
        if is_pred(t):
            return t
        return ("truth", t)

    def truth(self, c, st):
        t = c.t
        if self.assume_truth is not None:
            r = self.assume_truth(self.pred(c, st))
            if r is not None:
                return r
        if t[0] == "k":
            return bool(t[1])
        if t in (TRUE, FALSE):
            return t == TRUE
        p = self.pred(c, st)
        if p in st.pc:
            return True
        if t_not(p) in st.pc:
            return False
        if p[0] == "and":
            if all(x in st.pc for x in p[1:]):
                return True
            if any(t_not(x) in st.pc for x in p[1:]):
                return False
        if p[0] == "or":
            if any(x in st.pc for x in p[1:]):
                return True
        if c.a and all(a[0] in ("cls", "bm", "fn", "ext", "mod") for a in c.a):
            return True
        so = self.single_obj(c, st)
        if so and so[1].kind in ("list", "set") and so[1].items is not None:
            return len(so[1].items) > 0
        if so and so[1].kind == "dict" and so[1].summ is None and so[1].sym is None:
            return len(so[1].d) > 0 if not self.loops else (True if so[1].d else None)
        if so and so[1].kind == "inst" and so[1].cls is not None and so[1].cls.find("__len__") is None and so[1].cls.find("__bool__") is None:
            return True
        if so and so[1].kind == "gen":
            return True
        if c.n == "N":
            return False
        return None

    # ------------------------------------------------------------------ expressions
    def ev_expr(self, e, st):
        self.steps += 1
        if self.steps > self.max_steps:
            raise Budget()
        m = getattr(self, "e_" + type(e).__name__, None)
        if m is None:
            for ch in ast.iter_child_nodes(e):
                if isinstance(ch, ast.expr):
                    self.ev_expr(ch, st)
            return self.top(type(e).__name__)
        return m(e, st)

    def e_Constant(self, e, st):
        return self.const(e.value)

    def e_JoinedStr(self, e, st):
        parts, g = [], EMPTY
        for v in e.values:
            if isinstance(v, ast.FormattedValue):
                x = self.ev_expr(v.value, st)
                parts.append(self.T(x, st))
                g |= x.g
            else:
                parts.append(("k", v.value))
        if all(p[0] == "k" for p in parts):
            return self.const("".join(str(p[1]) for p in parts)).w(g=g)
        return V(t=("fstr", *parts), g=g, n="V")

    def e_Name(self, e, st):
        return self.lookup(e.id, st)

    def lookup(self, name, st):
        if name in st.env:
            return st.env[name]
        fr = self.frames[-1]
        oe = fr.outer_env
        while oe is not None:
            env, up = oe
            if name in env:
                return env[name]
            oe = up
        return self.mod_name(fr.mod, name)

    def mod_name(self, mod, name):
        r = self.prog.resolve_in(mod, name)
        if r is not None:
            return self.from_resolved(r)
        if name in BUILTINS:
            if name == "True":
                return self.const(True)
            return V(a=frozenset([("ext", name)]), t=("x", name), n="V")
        return V(t=("unb", name))

    def from_resolved(self, r):
        if isinstance(r, Module):
            return V(a=frozenset([("mod", r.name)]), t=("x", r.name), n="V")
        if isinstance(r, Cls):
            return V(a=frozenset([("cls", r.qual)]), t=("x", r.qual), n="V")
        if isinstance(r, Func):
            return V(a=frozenset([("fn", r)]), t=("x", r.qual), n="V")
        if isinstance(r, tuple) and r[0] == "const":
            return self.mod_const(r[1], r[2])
        if isinstance(r, str):
            return V(a=frozenset([("ext", r)]), t=("x", r), n="V")
        return self.top("resolve")

    def mod_const(self, mod, name):
        key = (mod.name, name)
        if key in self.mod_cache:
            v = self.mod_cache[key]
            if self.frames and isinstance(v, tuple):
                v, heap = v
                return v
            return v
        if key in self.mod_busy or name in mod.multi:
            return V(t=("x", f"{mod.name}.{name}"), g=frozenset([f"const:{name}"]), n="V")
        self.mod_busy.add(key)
        st = St({}, {}, ())
        f = Frame(None, mod, None, None, None)
        self.frames.append(f)
        self.mute += 1
        loops, self.loops = self.loops, []
        try:
            v = self.ev_expr(mod.consts[name], st)
            t = self.T(v, st)
            # Heap containers at module level: keep their contents through the term only when scalar
            if any(a[0] == "obj" for a in v.a):
                self.global_heap = getattr(self, "global_heap", {})
                for oid, h in st.heap.items():
                    self.global_heap[oid] = h
            v = v.w(g=v.g | {f"const:{name}"}, o=frozenset([f"module:{mod.name}.{name}"]) if any(a[0] == "obj" for a in v.a) else v.o)
            if not any(a[0] == "obj" for a in v.a) and t[0] in ("top",):
                v = v.w(t=("x", f"{mod.name}.{name}"))
        finally:
            self.mute -= 1
            self.frames.pop()
            self.loops = loops
            self.mod_busy.discard(key)
        self.mod_cache[key] = v
        return v

    def heap_get(self, st, oid):
        if oid in st.heap:
            return st.heap[oid]
        gh = getattr(self, "global_heap", {})
        if oid in gh:
            st.heap[oid] = gh[oid]
            return gh[oid]
        return None

    def _pull(self, v, st):
        for a in v.a:
            if a[0] == "obj" and a[1] not in st.heap:
                self.heap_get(st, a[1])
            if a[0] == "tup":
                for x in a[1]:
                    self._pull(x, st)
        gh = getattr(self, "global_heap", None)
        if gh:
            todo = [a[1] for a in v.a if a[0] == "obj"]
            seen = set()
            while todo:
                o = todo.pop()
                if o in seen:
                    continue
                seen.add(o)
                h = self.heap_get(st, o)
                if h is None:
                    continue
                for x in list(h.d.values()) + list(h.items or []) + ([h.summ] if h.summ else []):
                    if isinstance(x, V):
                        todo.extend(a[1] for a in x.a if a[0] == "obj")

    def e_Tuple(self, e, st):
        items = []
        for x in e.elts:
            if isinstance(x, ast.Starred):
                v = self.ev_expr(x.value, st)
                ex = self.exact_items(v, st)
                if ex is None:
                    return V(t=("tuple*", *[i.t for i in items], self.T(v, st)), g=v.g.union(*[i.g for i in items]), n="V")
                items.extend(ex)
            else:
                items.append(self.ev_expr(x, st))
        return self.mk_tuple(items)

    def e_List(self, e, st):
        items, unknown = [], None
        for x in e.elts:
            if isinstance(x, ast.Starred):
                v = self.ev_expr(x.value, st)
                ex = self.exact_items(v, st)
                if ex is None:
                    unknown = self.element(v, ("L", f"star{next(self.ctr)}"), st, e)
                else:
                    items.extend(ex)
            else:
                items.append(self.ev_expr(x, st))
        if unknown is not None:
            s = unknown
            for x in items:
                s = self.jv(s, x)
            return self.mk_list(st, None, s)
        return self.mk_list(st, items)

    def e_Set(self, e, st):
        items = [self.ev_expr(x, st) for x in e.elts]
        return self.mk_list(st, items, kind="set")

    def pairs_of(self, src, st):
        t = self.T(src, st)
        k = ("key", t, "dict")
        return ("bag", ("pair", k, ("item", t, k)))

    def e_Dict(self, e, st):
        d, summ = {}, None
        parts, dyn = [], False
        for k, v in zip(e.keys, e.values):
            if k is None:
                src = self.ev_expr(v, st)
                so = self.single_obj(src, st)
                if so and so[1].kind == "dict":
                    d.update(so[1].d)
                    dyn |= so[1].acc is not None or so[1].summ is not None
                    parts.append(self.dacc(so[1], st))
                    if so[1].summ is not None:
                        summ = so[1].summ if summ is None else self.jv(summ, so[1].summ)
                else:
                    x = V(t=("item", src.t, ("top", f"k#{next(self.ctr)}")), g=src.g, o=src.o)
                    summ = x if summ is None else self.jv(summ, x)
                    dyn = True
                    parts.append(self.pairs_of(src, st))
                continue
            kv, vv = self.ev_expr(k, st), self.ev_expr(v, st)
            dyn |= kv.t[0] != "k"
            parts.append(("list", ("pair", self.T(kv, st), self.R(vv, st))))
            if kv.t[0] == "k":
                d[kv.t[1]] = vv
            else:
                summ = vv if summ is None else self.jv(summ, vv)
        r = self.mk_dict(st, d, summ)
        if dyn:
            st.heap[next(iter(r.a))[1]].acc = V(t=self.cap(("cat", *parts)), n="V")
        return r

    def e_Attribute(self, e, st):
        return self.get_attr(self.ev_expr(e.value, st), e.attr, st, e)

    def _lazy_field(self, h, name, st=None):
        lab = h.label or "obj"
        base = h.sym or ("s", lab)
        if st is not None and h.sym is None and isinstance(h.extra, tuple) and h.extra[0] == "ctor" and st.heap.get(lab) is h:
            base = self.T(V(a=frozenset([("obj", lab)]), t=("s", f"<{lab}>")), st)
        return V(t=("attr", base, name), g=frozenset([f"{lab}.{name}"]), o=frozenset([f"{lab}.{name}"]))

    def get_attr(self, o, name, st, node=None):
        self._pull(o, st)
        outs = []
        anys = [a for a in o.a if a[0] == "any"]
        if len(anys) == 1 and len(o.a) > 1:
            x = self.get_attr(anys[0][1], name, st, node)
            y = self.get_attr(o.w(a=o.a - set(anys)), name, st, node)
            if o.t[0] == "ite" and anys[0][1].t in o.t[2:4]:
                return self.jv(x, y, o.t[1]) if anys[0][1].t == o.t[2] else self.jv(y, x, o.t[1])
            return self.jv(x, y)
        for a in o.a:
            k = a[0]
            if k == "any":
                return self.get_attr(a[1], name, st, node)
            if k == "mod":
                r = self.prog.resolve_in(self.prog.mods[a[1]], name)
                outs.append(self.from_resolved(r) if r is not None else V(t=("unb", f"{a[1]}.{name}")))
            elif k == "ext":
                outs.append(self.ext_attr(a[1], name))
            elif k == "cls":
                outs.append(self.cls_attr(self.prog.classes[a[1]], name, o, st))
            elif k == "obj":
                h = st.heap.get(a[1])
                if h is None:
                    continue
                outs.append(self.obj_attr(a[1], h, o, name, st, node))
            elif k == "super":
                outs.append(self.super_attr(a, name, st))
            elif k in ("bm", "fn") and name in ("__name__", "__doc__", "__self__"):
                outs.append(V(t=("attr", o.t, name), g=o.g))
            else:
                outs.append(V(a=frozenset([("um", o, name)]), t=("attr", o.t, name), g=o.g, o=o.o))
        if outs:
            r = outs[0]
            for x in outs[1:]:
                r = self.jv(r, x)
            return r
        self.ev("attr", name, node, st, recv=o)
        t = self.T(o, st)
        if name in SAME_ATTRS:
            return V(t=t, g=o.g, o=o.o)
        if t[0] == "sel" and name in ("size", "shape", "index"):
            pass
        return V(a=frozenset([("um", o, name)]), t=("attr", t, name), g=o.g, o=o.o if name not in ("shape", "ndim", "dtype", "size") else EMPTY)

    def ext_attr(self, dotted, name):
        full = f"{dotted}.{name}"
        r = self.prog.resolve_dotted(full)
        if not isinstance(r, str):
            return self.from_resolved(r)
        if full in ("numpy.inf", "math.inf"):
            return self.const(float("inf"))
        if full == "numpy.newaxis":
            return self.const(None)
        if full in ("numpy.pi", "math.pi"):
            return V(t=("x", "pi"), n="V")
        return V(a=frozenset([("ext", full)]), t=("x", full), n="V")

    def cls_attr(self, c, name, o, st):
        f = c.find(name)
        if f is not None:
            if f.static:
                return V(a=frozenset([("fn", f)]), t=("x", f.qual), n="V")
            if f.classm:
                return V(a=frozenset([("bm", f, o)]), t=("x", f.qual), n="V")
            return V(a=frozenset([("fn", f)]), t=("x", f.qual), n="V")
        at = c.find_attr(name)
        if at is not None:
            return self.cls_const(at[0], name, at[1], st)
        if name == "__name__":
            return self.const(c.name)
        return V(t=("attr", ("x", c.qual), name), g=EMPTY)

    def cls_const(self, c, name, expr, st):
        key = (c.qual, name)
        if key not in self.cls_cache:
            if key in self.mod_busy:
                return self.top("clsconst")
            self.mod_busy.add(key)
            s2 = St({}, {}, ())
            # other class attributes are visible while the class body runs
            for n2, e2 in c.attrs.items():
                if n2 != name and isinstance(e2, ast.Constant):
                    s2.env[n2] = self.const(e2.value)
            fr = Frame(None, c.mod, c, None, None)
            self.frames.append(fr)
            self.mute += 1
            loops, self.loops = self.loops, []
            try:
                v = self.ev_expr(expr, s2)
            finally:
                self.mute -= 1
                self.frames.pop()
                self.loops = loops
                self.mod_busy.discard(key)
            self.global_heap = getattr(self, "global_heap", {})
            self.global_heap.update(s2.heap)
            self.cls_cache[key] = v.w(g=v.g | {f"{c.name}.{name}"}, o=frozenset([f"class:{c.name}.{name}"]) if any(a[0] == "obj" for a in v.a) else EMPTY)
        v = self.cls_cache[key]
        self._pull(v, st)
        return v

    def obj_attr(self, oid, h, o, name, st, node):
        if h.kind == "inst":
            one = V(a=frozenset([("obj", oid)]), t=h.sym or ("s", f"<{oid}>"), g=o.g, o=o.o, n="V")
            if name in h.d:
                return h.d[name]
            if h.cls is not None:
                f = h.cls.find(name)
                if f is not None:
                    if f.prop:
                        return self.call_func(f, [one], {}, None, st, node)
                    if f.static:
                        return V(a=frozenset([("fn", f)]), t=("x", f.qual), n="V")
                    if f.classm:
                        cv = V(a=frozenset([("cls", h.cls.qual)]), t=("x", h.cls.qual), n="V")
                        return V(a=frozenset([("bm", f, cv)]), t=("x", f.qual), n="V")
                    return V(a=frozenset([("bm", f, one)]), t=("attr", h.sym or ("s", f"<{oid}>"), name), n="V", g=EMPTY)
                at = h.cls.find_attr(name)
                if at is not None:
                    return self.cls_const(at[0], name, at[1], st)
                if name == "__class__":
                    return V(a=frozenset([("cls", h.cls.qual)]), t=("x", h.cls.qual), n="V")
            if name == "__dict__":
                return self.top("__dict__")
            if h.sym is None:
                self.ev("missattr", name, node, st, recv=o)
            v = self._lazy_field(h, name, st)
            return v.w(a=frozenset([("um", one, name)]))
        if h.kind in ("closure", "partial") and name in h.d:
            return h.d[name]
        return V(a=frozenset([("um", o, name)]), t=("attr", self.T(o, st), name), g=o.g, o=o.o)

    def super_attr(self, a, name, st):
        _, owner, selfv = a
        for oid, h in self.objs(selfv, st):
            if h.cls is not None:
                f = h.cls.find_after(owner, name)
                if f is not None:
                    if f.prop:
                        return self.call_func(f, [selfv], {}, None, st, None)
                    return V(a=frozenset([("bm", f, selfv)]), t=("x", f.qual), n="V")
        for x in selfv.a:
            if x[0] == "cls":
                f = self.prog.classes[x[1]].find_after(owner, name)
                if f is not None:
                    return V(a=frozenset([("bm", f, selfv)]), t=("x", f.qual), n="V")
        return V(a=frozenset([("ext", f"object.{name}")]), t=("x", f"super.{name}"), n="V")

    def e_Subscript(self, e, st):
        o = self.ev_expr(e.value, st)
        k = self.ev_expr(e.slice, st)
        return self.get_item(o, k, st, e)

    def e_Slice(self, e, st):
        ps = []
        g = EMPTY
        for x in (e.lower, e.upper, e.step):
            if x is None:
                ps.append(NONE)
            else:
                v = self.ev_expr(x, st)
                ps.append(self.T(v, st))
                g |= v.g
        return V(t=("slice", *ps), g=g, n="V")

    def get_item(self, o, k, st, node):
        self._pull(o, st)
        self.ev("getitem", "[]", node, st, recv=o, args=[k])
        kt = self.T(k, st)
        tup = [a for a in o.a if a[0] == "tup"]
        if len(tup) == 1 and len(o.a) == 1 and kt[0] == "k" and isinstance(kt[1], int):
            items = tup[0][1]
            if -len(items) <= kt[1] < len(items):
                return items[kt[1]]
        so = self.single_obj(o, st)
        if so:
            oid, h = so
            if h.kind == "list":
                if kt[0] == "k" and isinstance(kt[1], int) and h.items is not None and -len(h.items) <= kt[1] < len(h.items):
                    return h.items[kt[1]]
                if h.items is not None and kt[0] != "slice":
                    s = None
                    for x in h.items:
                        s = x if s is None else self.jv(s, x)
                    if s is not None:
                        return s.w(t=("item", self.T(o, st), kt), g=s.g | k.g)
                if h.summ is not None and kt[0] != "slice":
                    if "#" in h.d and any(x and x[0] == "top" for x in subs(h.summ.t)):
                        return h.summ.w(g=h.summ.g | k.g, t=("item", self.T(o, st), kt))
                    return h.summ.w(g=h.summ.g | k.g, t=self._bag_item(h.summ.t, kt))
                return V(t=("item", self.T(o, st), kt), g=self.all_tags(o, st) | k.g, o=o.o)
            if h.kind == "dict":
                return self._dict_get(o, k, kt, oid, h, st)
            if h.kind == "inst" and h.cls is not None:
                f = h.cls.find("__getitem__")
                if f is not None and f.qual not in self.no_inline:
                    return self.call_func(f, [o, k], {}, None, st, node)
        t = self.T(o, st)
        copied = is_pred(kt) or kt[0] == "idx" or (t[0] == "attr" and t[2] in ("iloc", "loc") and kt[0] != "slice")      # a selection by mask or by index array is a new array
        return V(t=self.item_term(t, kt), g=self.all_tags(o, st) | self.all_tags(k, st), o=EMPTY if copied else o.o)

    def _dict_get(self, o, k, kt, oid, h, st):
        if kt[0] == "k" and kt[1] in h.d:
            return h.d[kt[1]]
        if h.summ is not None and isinstance(h.extra, tuple) and len(h.extra) == 2 and h.extra[0] == "keyed" and self._same_key(h.extra[1], kt):
            return h.summ.w(g=h.summ.g | k.g)
        s = self._dict_any(h) if (h.d or h.summ) else self.top("nokey")
        back = h.summ is not None and h.acc is not None and any(x and x[0] == "mu" and x[2] == f"{oid}.*" for x in subs(h.summ.t))
        return s.w(g=s.g | k.g, t=("item", self.T(o, st), kt) if h.summ is None or h.d or back else s.t)

    def _same_key(self, a, b):
        """Keys that run over the same collection in different loops."""
        return a is not None and (a == b or a[0] == b[0] and a[0] in ("elem", "key") and a[1] == b[1])

    def _bag_item(self, t, kt):
        return ("item", ("bag", t), kt) if kt[0] == "k" else t

    def item_term(self, t, kt):
        # newaxis / full slices are shape-only
        def trivial(x):
            return x == NONE or x == ("slice", NONE, NONE, NONE) or x == ("k", Ellipsis)

        if trivial(kt):
            return t
        if kt[0] == "tuple":
            rest = [x for x in kt[1:] if not trivial(x)]
            if not rest:
                if len(kt) == 3 and NONE in kt and ("slice", NONE, NONE, NONE) in kt:
                    self.newaxes.setdefault(t, set()).add("N:" if kt[1] == NONE else ":N")
                return t
            if len(rest) == 1 and (is_pred(rest[0]) or rest[0][0] in ("idx",)):
                ax = [i for i, x in enumerate(kt[1:]) if x is rest[0]]
                return ("sel", t, rest[0])
            return ("item", t, kt)
        if t[0] in ("tuple", "list") and kt[0] == "k" and isinstance(kt[1], int) and -len(t) + 1 <= kt[1] < len(t) - 1:
            return t[1:][kt[1]]
        if kt[0] == "ix":
            return ("elem", t, kt[1])
        if is_pred(kt):
            return ("sel", t, kt)
        if kt[0] == "idx":
            return ("sel", t, kt[1])
        if t[0] == "call" and t[1] in ("numpy.where", "numpy.nonzero") and len(t) == 3 and kt == ("k", 0):
            return ("idx", t[2]) if is_pred(t[2]) else ("item", t, kt)
        if t[0] == "dict" and kt[0] == "k":
            for kv in t[1:]:
                if kv[1] == kt[1]:
                    return kv[2]
        return ("item", t, kt)

    def e_BinOp(self, e, st):
        a = self.ev_expr(e.left, st)
        b = self.ev_expr(e.right, st)
        op = INPLACE_OPS.get(type(e.op), "?")
        # list concatenation / repetition
        if op in ("+", "*"):
            sa, sb = self.single_obj(a, st), self.single_obj(b, st)
            if op == "+" and sa and sb and sa[1].kind == "list" and sb[1].kind == "list":
                if sa[1].items is not None and sb[1].items is not None:
                    return self.mk_list(st, sa[1].items + sb[1].items)
                s = None
                for h in (sa[1], sb[1]):
                    for x in (h.items or []) + ([h.summ] if h.summ is not None else []):
                        s = x if s is None else self.jv(s, x)
                r = self.mk_list(st, None, s)
                self.single_obj(r, st)[1].d["#"] = V(t=self.cap(("cat", self.acc(sa[1], st), self.acc(sb[1], st))), n="V")
                return r
            if op == "*" and sa and sa[1].kind == "list" and sa[1].items is not None and len(sa[1].items) == 1 and not sb:
                r = self.mk_list(st, None, sa[1].items[0])
                inner = self.single_obj(sa[1].items[0], st)
                if inner and inner[1].kind in ("dict", "list", "set") and inner[1].sym is None:
                    self.single_obj(r, st)[1].extra = "aliased"      # one container, several times
                self.single_obj(r, st)[1].d["#"] = V(t=self.cap(("rep", self.T(sa[1].items[0], st), self.T(b, st))), n="V")
                return r
            ta = [x for x in a.a if x[0] == "tup"]
            tb = [x for x in b.a if x[0] == "tup"]
            if op == "+" and len(ta) == 1 and len(tb) == 1:
                return self.mk_tuple(list(ta[0][1]) + list(tb[0][1]))
        r = self.binop(op, a, b, st)
        self.ev("binop", op, e, st, args=[a, b], ret=r)
        return r

    def binop(self, op, a, b, st):
        ta, tb = self.T(a, st), self.T(b, st)
        g = self.all_tags(a, st) | self.all_tags(b, st)
        if ("uninit", 0) in (ta, tb):   # arithmetic with memory nothing was written to
            ta, tb = (("call", "uninitialised") if x == ("uninit", 0) else x for x in (ta, tb))
            return V(t=("bin", op, ta, tb), g=g, n="V")
        for x in (a, b):
            so = self.single_obj(x, st)
            if so and so[1].kind == "set":
                return self.mk_list(st, None, self.element(x, ("L", "set"), st, None), kind="set").w(g=g)
        if ta[0] == "k" and tb[0] == "k" and isinstance(ta[1], (int, float)) and isinstance(tb[1], (int, float)) and not isinstance(ta[1], bool):
            try:
                v = {"+": lambda x, y: x + y, "-": lambda x, y: x - y, "*": lambda x, y: x * y}[op](ta[1], tb[1])
                return self.const(v).w(g=g)
            except Exception:
                pass
        if op == "+" and ta[0] == "k" and tb[0] == "k" and isinstance(ta[1], str) and isinstance(tb[1], str):
            return self.const(ta[1] + tb[1]).w(g=g)
        if op == "&" and (is_pred(ta) or is_pred(tb)):
            return V(t=t_and([ta, tb]), g=g, n="V")
        if op == "|" and (is_pred(ta) or is_pred(tb)):
            return V(t=_or([ta, tb]), g=g, n="V")
        return V(t=self.cap(("bin", op, ta, tb)), g=g, n="V")

    def e_UnaryOp(self, e, st):
        v = self.ev_expr(e.operand, st)
        t = self.T(v, st)
        if isinstance(e.op, ast.Not):
            tr = self.truth(v, st)
            if tr is not None:
                return self.const(not tr).w(g=v.g)
            return V(t=t_not(self.pred(v, st)), g=v.g, n="V")
        if isinstance(e.op, ast.Invert):
            if is_pred(t):
                return V(t=t_not(t), g=v.g, n="V")
            return V(t=t_not(("truth", t)), g=v.g, n="V")
        if isinstance(e.op, ast.USub):
            if t[0] == "k" and isinstance(t[1], (int, float)):
                return self.const(-t[1])
            return V(t=("bin", "-", ("k", 0), t), g=v.g, n="V")
        return V(t=t, g=v.g, n="V")

    def e_BoolOp(self, e, st):
        isand = isinstance(e.op, ast.And)
        cur = st.copy()
        vals = []
        decided = None
        for i, x in enumerate(e.values):
            v = self.ev_expr(x, cur)
            tr = self.truth(v, cur)
            last = i == len(e.values) - 1
            if tr is not None and not last:
                if tr == isand:
                    # value does not decide; skip it
                    self._refine(x, isand, cur)
                    continue
                vals.append((v, cur.copy()))
                decided = True
                break
            vals.append((v, cur.copy()))
            if not last:
                self.refine(x, isand, cur, self.pred(v, cur) if isand else t_not(self.pred(v, cur)))
        st.heap = cur.heap  # side effects of evaluated operands (conservative: all evaluated)
        if len(vals) == 1:
            return vals[0][0]
        preds = [self.pred(v, s2) for v, s2 in vals]
        g = frozenset().union(*[v.g for v, _ in vals])
        allpred = all(is_pred(self.T(v, s2)) for v, s2 in vals)
        if allpred:
            return V(t=t_and(preds) if isand else _or(preds), g=g, n="V")
        # value semantics: a or b == ite(a, a, b)
        r = vals[-1][0]
        for (v, s2), p in zip(reversed(vals[:-1]), reversed(preds[:-1])):
            if isand:
                r2 = self.jv(r, v, p)
            else:
                r2 = self.jv(v if v.n != "?" else v.w(n="V"), r, p)
            r = r2
        # as a predicate the boolean combination is what matters
        return r.w(t=("boolop", "and" if isand else "or", *preds), g=g) if not (not isand and len(vals) == 2) else r.w(g=g)

    def e_Compare(self, e, st):
        left = self.ev_expr(e.left, st)
        ps, g = [], left.g
        allknown = True
        res = True
        for op, c in zip(e.ops, e.comparators):
            right = self.ev_expr(c, st)
            g = g | self.all_tags(right, st) | self.all_tags(left, st)
            o = CMPS[type(op)]
            r = self.cmp_known(o, left, right, st)
            lt, rt = self.T(left, st), self.T(right, st)
            if r is not None and o in ("in", "notin"):
                so = self.single_obj(right, st)
                if so and so[1].may and left.t[0] == "k" and left.t[1] in so[1].may:
                    allknown = False
                    p = so[1].may[left.t[1]]
                    ps.append(p if o == "in" else t_not(p))
                    left = right
                    continue
            if r is None:
                allknown = False
                if o == "notin":
                    ps.append(t_not(("cmp", "in", lt, rt)))
                else:
                    ps.append(("cmp", o, lt, rt))
            else:
                res = res and r
                if not r:
                    return self.const(False).w(g=g)
            self.ev("compare", o, e, st, args=[left, right])
            left = right
        if allknown:
            return self.const(res).w(g=g)
        return V(t=t_and(ps), g=g, n="V")

    def cmp_known(self, o, a, b, st):
        if o in ("is", "isnot"):
            if b.t == NONE:
                if a.n == "N":
                    return o == "is"
                if a.n == "V":
                    return o == "isnot"
                return None
            if a.t == b.t and a.t[0] in ("x", "k"):
                return o == "is"
            return None
        if o in ("==", "!=") and b.t == NONE and a.n == "V" and False:
            return o == "!="
        if a.t[0] == "k" and b.t[0] == "k":
            x, y = a.t[1], b.t[1]
            try:
                return {"<": lambda: x < y, "<=": lambda: x <= y, ">": lambda: x > y, ">=": lambda: x >= y, "==": lambda: x == y,
                        "!=": lambda: x != y, "in": lambda: x in y, "notin": lambda: x not in y}[o]()
            except Exception:
                return None
        if o in ("==", "!="):
            if a.t == b.t and a.t[0] == "x":
                return o == "=="
            if a.t[0] == "x" and b.t[0] == "x":
                return None
        if o in ("in", "notin") and a.t[0] == "k":
            so = self.single_obj(b, st)
            if so and so[1].kind == "dict":
                if a.t[1] in so[1].d:
                    return o == "in"
                if so[1].summ is None and so[1].sym is None:
                    return o == "notin"
            xs = self.exact_items(b, st)
            if xs is not None and all(x.t[0] == "k" for x in xs):
                return (a.t[1] in [x.t[1] for x in xs]) == (o == "in")
        return None

    def e_IfExp(self, e, st):
        c = self.ev_expr(e.test, st)
        t = self.truth(c, st)
        if t is True:
            self._refine(e.test, True, st)
            return self.ev_expr(e.body, st)
        if t is False:
            return self.ev_expr(e.orelse, st)
        p = self.pred(c, st)
        a, b = st.copy(), st.copy()
        self.refine(e.test, True, a, p)
        self.refine(e.test, False, b, t_not(p))
        va, vb = self.ev_expr(e.body, a), self.ev_expr(e.orelse, b)
        va2 = va.w(t=self.T(va, a))
        vb2 = vb.w(t=self.T(vb, b))
        env = st.env
        j = self.jst(a, b, p, c.g)
        st.heap = j.heap
        st.env.update({k: v for k, v in j.env.items() if k in env or True})
        return self.jv(va2, vb2, p, self.all_tags(c, st))

    def e_NamedExpr(self, e, st):
        v = self.ev_expr(e.value, st)
        self.assign(e.target, v, st, e)
        return v

    def e_Lambda(self, e, st):
        fr = self.frames[-1]
        f = Func(e, fr.mod, None, f"{fr.func.qual if fr.func else fr.mod.name}.<lambda>", outer=fr.func)
        oid = f"clo{next(self.ctr)}"
        st.heap[oid] = HObj("closure", extra=(f, fr, st.env))
        return V(a=frozenset([("obj", oid)]), t=("s", "<lambda>"), n="V")

    def e_Starred(self, e, st):
        return self.ev_expr(e.value, st)

    def e_Yield(self, e, st):
        v = self.ev_expr(e.value, st) if getattr(e, "value", None) is not None else self.const(None)
        if isinstance(e, ast.YieldFrom):
            v = self.element(v, ("L", "yf"), st, e)
        self.frames[-1].yields.append(v)
        self.ev("yield", "yield", e, st, args=[v])
        return self.top("yield")

    e_YieldFrom = e_Yield

    def _comp(self, e, st, build):
        q = st.copy()
        L0 = []

        def rec(i, q, conds, out):
            if i == len(e.generators):
                out.append((build(q), conds))
                return
            g = e.generators[i]
            it = self.ev_expr(g.iter, q)
            self.ev("iter", "comp", e, q, recv=it)
            items = self.exact_items(it, q)
            if items is not None and len(items) <= 24:
                for x in items:
                    q2 = q.copy()
                    self.assign(g.target, x, q2, e)
                    dead = False
                    cs = conds
                    for c in g.ifs:
                        cv = self.ev_expr(c, q2)
                        tr = self.truth(cv, q2)
                        if tr is False:
                            dead = True
                            break
                        if tr is None:
                            cs = cs + [(self.pred(cv, q2), cv.g)]
                    if not dead:
                        rec(i + 1, q2, cs, out)
                        q.heap = q2.heap
            else:
                fr = self.frames[-1]
                L = ("L", f"{fr.func.qual if fr.func else ''}:c{e.lineno}:{e.col_offset}:{i}:{len(self.loops)}")
                self.loops.append(L)
                L0.append(L)
                q2 = q.copy()
                q2.pc = q2.pc + (("inloop", L[1]),)
                self.assign(g.target, self.element(it, L, q2, e), q2, e)
                cs = conds + [("loop", it.g)]
                for c in g.ifs:
                    cv = self.ev_expr(c, q2)
                    p = self.pred(cv, q2)
                    cs = cs + [(p, cv.g)]
                    self.refine(c, True, q2, p)
                rec(i + 1, q2, cs, out)
                self.loops.pop()
                q.heap = q2.heap

        out = []
        rec(0, q, [], out)
        st.heap = q.heap
        return out, L0

    def e_ListComp(self, e, st, kind="list"):
        out, L0 = self._comp(e, st, lambda q: self.ev_expr(e.elt, q))
        if not L0 and all(not c for _, c in out):
            return self.mk_list(st, [v for v, _ in out], kind=kind)
        s = None
        for v, conds in out:
            t = v.t
            g = v.g
            for p, cg in conds:
                g |= cg
                if p != "loop":
                    t = ("filter", t, p)
            v = v.w(t=t, g=g)
            s = v if s is None else self.jv(s, v)
        if s is None:
            return self.mk_list(st, [], kind=kind)
        return self.mk_list(st, None, s, kind=kind)

    def e_GeneratorExp(self, e, st):
        return self.e_ListComp(e, st)

    def e_SetComp(self, e, st):
        return self.e_ListComp(e, st, kind="set")

    def e_DictComp(self, e, st):
        out, L0 = self._comp(e, st, lambda q: (self.ev_expr(e.key, q), self.ev_expr(e.value, q)))
        d, summ = {}, None
        accs = []
        for (k, v), conds in out:
            g = v.g | k.g
            t = v.t
            pair = ("pair", self.T(k, st), self.R(v, st))
            for p, cg in conds:
                g |= cg
                if p != "loop":
                    t = ("sel", t, p)
                    pair = ("filter", pair, p)
            accs.append(("bag", pair) if any(p == "loop" for p, _ in conds) else ("list", pair))
            v = v.w(g=g, t=t)
            if not L0 and k.t[0] == "k" and not conds:
                d[k.t[1]] = v
            else:
                summ = v if summ is None else self.jv(summ, v)
        r = self.mk_dict(st, d, summ)
        if summ is not None:
            st.heap[next(iter(r.a))[1]].extra = ("keyed", None)
            st.heap[next(iter(r.a))[1]].acc = V(t=self.cap(accs[0] if len(accs) == 1 else ("cat", *accs)), n="V")
        return r

    # ------------------------------------------------------------------ calls
    def e_Call(self, e, st):
        # super()
        if isinstance(e.func, ast.Name) and e.func.id == "super" and "super" not in st.env:
            fr = self.frames[-1]
            f = fr
            cls, selfv = fr.cls, fr.selfv
            if cls is not None and selfv is not None:
                return V(a=frozenset([("super", cls, selfv)]), t=("s", "super"), n="V")
            return self.top("super")
        fv = self.ev_expr(e.func, st)
        args, kw, star, starkw = [], {}, None, None
        for a in e.args:
            if isinstance(a, ast.Starred):
                v = self.ev_expr(a.value, st)
                ex = self.exact_items(v, st)
                if ex is not None:
                    args.extend(ex)
                else:
                    star = v
            else:
                args.append(self.ev_expr(a, st))
        for k in e.keywords:
            v = self.ev_expr(k.value, st)
            if k.arg is None:
                so = self.single_obj(v, st)
                if so and so[1].kind == "dict" and so[1].sym is None:
                    for kk, vv in so[1].d.items():
                        kw.setdefault(kk, vv) if isinstance(kk, str) else None
                    if so[1].summ is not None:
                        x = so[1].summ if so[1].acc is None or any(y and y[0] == "top" for y in subs(so[1].acc.t)) else V(t=("starkw", self.T(v, st)), g=self.all_tags(v, st), o=so[1].summ.o)
                        starkw = x if starkw is None else self.jv(starkw, x)
                else:
                    x = V(t=("starkw", self.T(v, st)), g=self.all_tags(v, st), o=v.o)
                    starkw = x if starkw is None else self.jv(starkw, x)
            else:
                kw[k.arg] = v
        return self.call(fv, args, kw, star, starkw, st, e)

    def call(self, fv, args, kw, star, starkw, st, node):
        self._pull(fv, st)
        outs = []
        atoms = list(fv.a)
        # a value whose identity is unknown
        if not atoms:
            return self.call_unknown(fv, None, args, kw, star, starkw, st, node)
        if len(atoms) > 1:
            if all(a[0] == "um" and a[2] in MUTATORS for a in atoms) and len({a[2] for a in atoms}) == 1 and isinstance(node, ast.Call) and isinstance(node.func, ast.Attribute) and isinstance(node.func.value, ast.Name):
                own = [a for a in atoms if a[1].t[0] == "ite" and self.single_obj(a[1], st) is not None]
                cur = st.env.get(node.func.value.id)
                if len(own) == 1 and cur is not None and cur.t == own[0][1].t:
                    return self.call_atom(own[0], fv, args, kw, star, starkw, st, node)     # both alternatives are changed in the same way
            if len(atoms) == 2 and all(a[0] == "um" and a[2] in ("items", "keys", "values") for a in atoms) and len({a[2] for a in atoms}) == 1 and not args and not kw:
                own = [a[1] for a in atoms if a[1].t[0] == "ite" and self.single_obj(a[1], st) is not None]
                oth = [a[1] for a in atoms if not a[1].a]
                if len(own) == 1 and len(oth) == 1:
                    both = own[0].w(a=own[0].a | {("any", oth[0])}, g=own[0].g | oth[0].g)
                    return self.call_unknown(fv, (both, atoms[0][2]), args, kw, star, starkw, st, node)
            if len(atoms) == 2 and all(a[0] == "um" and a[2] == "copy" for a in atoms) and not args and not kw:
                own = [a[1] for a in atoms if a[1].t[0] == "ite" and self.single_obj(a[1], st) is not None]
                oth = [a[1] for a in atoms if not a[1].a]
                h = self.single_obj(own[0], st)[1] if len(own) == len(oth) == 1 else None
                if h is not None and h.kind == "dict" and h.sym is None and oth[0].t in own[0].t[2:4]:
                    two = V(t=self.cap(self.pairs_of(oth[0], st)), n="V")
                    r = self.mk_dict(st, {}, V(t=("item", own[0].t, ("top", f"k#{next(self.ctr)}")), g=own[0].g | oth[0].g, o=oth[0].o))
                    one = self.dacc(h, st)
                    st.heap[next(iter(r.a))[1]].acc = V(t=self.cap(t_ite(own[0].t[1], *((one, two.t) if oth[0].t == own[0].t[3] else (two.t, one)))), n="V")
                    return r
            gate = self.alternatives(fv, atoms) if len(atoms) == 2 else None
            if gate is not None:
                p, x, y = gate
                s1, s2 = st.copy(), st.copy()
                s1.pc, s2.pc = s1.pc + (p,), s2.pc + (t_not(p),)
                one, two = self.call_atom(x, fv, args, kw, star, starkw, s1, node), self.call_atom(y, fv, args, kw, star, starkw, s2, node)
                if s1.dead or s2.dead:
                    st.assign_from(s2 if s1.dead else s1)
                    return two if s1.dead else one
                one, two = one.w(t=self.T(one, s1)), two.w(t=self.T(two, s2))
                st.assign_from(self.jst(s1, s2, p, EMPTY))
                return self.jv(one, two, p)
            base = st
            states = []
            for a in sorted(atoms, key=lambda x: (x[0], str(x[1]) if not isinstance(x[1], V) else "")):
                s2 = base.copy()
                r = self.call_atom(a, fv, args, kw, star, starkw, s2, node)
                if not s2.dead:
                    outs.append(r)
                    states.append(s2)
            if not states:
                st.dead = True
                return self.top("deadcall")
            j, r = states[0], outs[0]
            for s2, o2 in zip(states[1:], outs[1:]):
                j = self.jst(j, s2)
                r = self.jv(r, o2)
            st.assign_from(j)
            return r
        return self.call_atom(atoms[0], fv, args, kw, star, starkw, st, node)

    @staticmethod
    def alternatives(fv, atoms):
        """f = a if c else b: the condition and the callee of each side, where each side is one known callee."""
        t = fv.t
        if not (isinstance(t, tuple) and t[0] == "ite"):
            return None

        def is_for(a, x):
            if a[0] == "um":
                return x == ("attr", a[1].t, a[2]) or a[2].__class__ is tuple and a[2][0] == "dyn" and x == ("call", "getattr", a[1].t, a[2][1])
            return x == ("x", a[1] if a[0] == "ext" else a[1].qual) if a[0] in ("ext", "fn") else False

        one, two = [a for a in atoms if is_for(a, t[2])], [a for a in atoms if is_for(a, t[3])]
        return (t[1], one[0], two[0]) if len(one) == len(two) == 1 and one[0] is not two[0] else None

    def call_atom(self, a, fv, args, kw, star, starkw, st, node):
        k = a[0]
        if k == "fn":
            return self.call_func(a[1], args, kw, (star, starkw), st, node)
        if k == "bm":
            return self.call_func(a[1], [a[2]] + args, kw, (star, starkw), st, node)
        if k == "cls":
            return self.instantiate(self.prog.classes[a[1]], args, kw, (star, starkw), st, node)
        if k == "ext":
            return self.call_ext(a[1], args, kw, star, starkw, st, node)
        if k == "um":
            return self.call_unknown(fv, (a[1], a[2]), args, kw, star, starkw, st, node)
        if k == "obj":
            h = st.heap.get(a[1])
            if h is not None:
                if h.kind == "closure":
                    f, fr, env = h.extra
                    return self.call_func(f, args, kw, (star, starkw), st, node, outer=(env, fr.outer_env), lex=fr)
                if h.kind == "partial":
                    inner, pargs, pkw, pstar = h.extra
                    kk = dict(pkw)
                    kk.update(kw)
                    return self.call(inner, list(pargs) + args, kk, star, starkw if starkw is not None else pstar, st, node)
                if h.kind == "inst" and h.cls is not None:
                    f = h.cls.find("__call__")
                    if f is not None:
                        one = V(a=frozenset([a]), t=h.sym or fv.t, g=fv.g, o=fv.o, n="V")
                        return self.call_func(f, [one] + args, kw, (star, starkw), st, node)
        return self.call_unknown(fv, None, args, kw, star, starkw, st, node)

    def instantiate(self, c, args, kw, stars, st, node):
        label = f"{c.name}@{node.lineno if node is not None and hasattr(node, 'lineno') else 0}.{next(self.ctr)}"
        h = HObj("inst", cls=c, label=label)
        st.heap[label] = h
        self.ev("new", c.qual, node, st, args=args, kw=kw, star=stars)
        selfv = V(a=frozenset([("obj", label)]), t=("s", f"<{label}>"), n="V")
        f = c.find("__init__")
        if f is not None:
            self.call_func(f, [selfv] + args, kw, stars, st, node)
        g = EMPTY
        for x in list(args) + list(kw.values()):
            g |= x.g
        return selfv.w(g=g)

    def call_func(self, f, args, kw, stars, st, node, outer=None, lex=None):
        star, starkw = stars if stars else (None, None)
        hook = self.intrinsics.get(f.qual)
        e = self.ev("call", f.qual, node, st, recv=args[0] if (f.cls is not None and not f.static and args) else None,
                    args=args, kw=kw, star=(star, starkw), targets=f)
        if hook is not None:
            r = hook(self, st, e)
            if r is not None:
                e.ret = r
                return r
        allin = list(args) + list(kw.values()) + [x for x in (star, starkw) if x is not None]
        g = frozenset().union(*[self.all_tags(x, st) for x in allin]) if allin else EMPTY
        rec = sum(1 for x in self.stack if x is f)
        if f.qual in self.no_inline or rec >= 2 or self.depth >= self.max_depth:
            o = EMPTY
            r = V(t=self.cap(("call", f.qual, *[self.T(x, st) for x in args], *[("kw", k, self.T(v, st)) for k, v in sorted(kw.items())])), g=g, o=o)
            e.extra = "opaque"
            e.ret = r
            return r
        env = {}
        node_f = f.node
        pos = list(args)
        for p in f.params:
            if pos:
                env[p] = pos.pop(0)
            elif p in kw:
                env[p] = kw[p]
            elif star is not None:
                env[p] = self.get_item(star, self.top("stararg"), st, node)
            elif p in f.defaults:
                env[p] = self.default_val(f, p, st)
                if starkw is not None:
                    env[p] = self.jv(V(t=("item", starkw.t, ("k", p)), g=starkw.g, o=starkw.o), env[p], ("cmp", "in", ("k", p), starkw.t))
            elif starkw is not None:
                env[p] = V(t=("item", starkw.t, ("k", p)), g=starkw.g, o=starkw.o)
            else:
                env[p] = self.top(f"missing:{p}")
        for p in f.kwonly:
            if p in kw:
                env[p] = kw[p]
            elif p in f.defaults:
                env[p] = self.default_val(f, p, st)
                if starkw is not None:
                    env[p] = self.jv(V(t=("item", starkw.t, ("k", p)), g=starkw.g, o=starkw.o), env[p], ("cmp", "in", ("k", p), starkw.t))
            elif starkw is not None:
                env[p] = V(t=("item", starkw.t, ("k", p)), g=starkw.g, o=starkw.o)
            else:
                env[p] = self.top(f"missing:{p}")
        if f.vararg:
            if star is not None:
                env[f.vararg] = star
            else:
                env[f.vararg] = self.mk_tuple(pos)
        extra = {k: v for k, v in kw.items() if k not in f.params and k not in f.kwonly}
        if f.kwarg:
            env[f.kwarg] = self.mk_dict(st, dict(extra), starkw)
            if starkw is not None:
                pass
        if f.name == "__init__" and args:
            so = self.single_obj(args[0], st)
            if so is not None and so[1].kind == "inst" and so[1].extra is None and so[1].sym is None and args[0].t == ("s", f"<{so[0]}>"):
                so[1].extra = ("ctor", [(p, env[p]) for p in sorted([*f.params[1:], *f.kwonly]) if p in env] + [(k, v) for k, v in sorted(extra.items())]
                               + ([("**", starkw)] if f.kwarg and starkw is not None else []) + ([("*", env[f.vararg])] if f.vararg else []))
        if f.qual in self.uninterp or f.name in self.uninterp or abstract(f) or (f.cls is not None and f"{f.cls.name}.{f.name}" in self.uninterp):
            recv = [self.T(args[0], st)] if (f.cls is not None and not f.static and args) else []
            ps = f.params[1:] if recv else f.params
            kws = [("kw", p, self.T(env[p], st)) for p in sorted([*ps, *f.kwonly]) if env[p].t is None or env[p].t[0] != "top" or not str(env[p].t[1]).startswith("missing")]
            kws += [("kw", k, self.T(v, st)) for k, v in sorted(extra.items())]
            if f.kwarg and starkw is not None:
                kws.append(("kw", "**", starkw.t))
            o = EMPTY
            e.extra = "uninterpreted"
            e.ret = V(t=self.cap(("call", "fn:" + f.name, *recv, *kws)), g=g, o=o)
            return e.ret
        self.stack.append(f)
        self._stk = None
        self.visited.add(f.qual)
        self.depth += 1
        selfv = args[0] if (f.cls is not None and not f.static and args) else (lex.selfv if lex is not None else None)
        fr = Frame(f, f.mod, f.cls if f.cls is not None else (lex.cls if lex is not None else None), selfv, outer)
        self.frames.append(fr)
        loops, self.loops = self.loops, list(self.loops)
        q = St(env, st.heap, st.pc, drawn=st.drawn)
        base_pc = len(st.pc)
        env0 = {p: env[p] for p in f.inplace if p in env}
        try:
            if isinstance(node_f, ast.Lambda):
                v = self.ev_expr(node_f.body, q)
                fr.returns.append((v, q.copy()))
            else:
                self.exec_body(node_f.body, q)
                if not q.dead:
                    fr.returns.append((self.const(None), q))
        finally:
            self.frames.pop()
            self.stack.pop()
            self._stk = None
            self.depth -= 1
            self.loops = loops
        rets = [(v, s2) for v, s2 in fr.returns if not getattr(s2, "gone", False)]
        if not rets:
            st.dead = True
            return self.top("noreturn")
        # join return states
        r, j = rets[-1]
        conds = self.return_conds(rets[:-1], base_pc)
        for (v, s2), cond in reversed(list(zip(rets[:-1], conds))):
            cg = EMPTY
            v2 = v.w(t=self.T(v, s2))
            if r.t is not None:
                r = r.w(t=self.T(r, j))
            r = self.jv(v2, r, cond, cg)
            j = self.jst(s2, j, cond)
        st.heap, st.drawn = j.heap, j.drawn
        for p in f.inplace:
            old, new = env0.get(p), j.env.get(p)
            if old is not None and new is not None and new is not old and new.t != old.t:
                self.realias(st, old, new)
        st.pc = j.pc if j.pc[:base_pc] == st.pc[:base_pc] else st.pc
        # drop loop markers a return inside a loop may have left behind
        st.pc = st.pc[:base_pc] + tuple(x for x in st.pc[base_pc:] if not (isinstance(x, tuple) and x[0] in ("inloop", "exc")))
        if f.is_gen:
            s = None
            for y in fr.yields:
                s = y if s is None else self.jv(s, y)
            r = self.mk_list(st, None, s) if s is not None else self.mk_list(st, [])
        e.ret = r
        return r

    def return_conds(self, rets, base_pc):
        """Condition of each early return; one inside a loop (of a value the loop does not change) happens when any iteration meets its condition."""
        out, seen = [], {}
        for v, s2 in rets:
            pcs = list(s2.pc[base_pc:])
            i = next((i for i, x in enumerate(pcs) if x[0] == "inloop"), None)
            if not any(x[0] in ("inloop", "exc") for x in pcs):
                out.append(t_and(pcs))
            elif i is None or any(x[0] == "exc" for x in pcs) or v.t is None or v.t[0] != "k":
                out.append(None)
            else:
                done = seen.setdefault((tuple(pcs[:i + 1]), v.t), [])
                mine = [x for x in pcs[i + 1:] if x[0] != "inloop"]
                mine = t_and([x for x in mine if t_not(x) not in done])
                done.append(mine)
                if any(y[0] == "mu" for y in subs(mine)):
                    out.append(None)
                else:
                    out.append(t_and([*pcs[:i], ("call", "numpy.any", mine)]))
        return out

    def default_val(self, f, p, st):
        d = f.defaults[p]
        if isinstance(d, ast.Constant):
            return self.const(d.value)
        s2 = St({}, {}, ())
        self.frames.append(Frame(None, f.mod, f.cls, None, None))
        self.mute += 1
        try:
            v = self.ev_expr(d, s2)
        finally:
            self.mute -= 1
            self.frames.pop()
        st.heap.update(s2.heap)
        if any(a[0] == "obj" for a in v.a):
            v = v.w(o=v.o | {f"default:{f.qual}.{p}"})
        return v

    def _kwterms(self, kw, st):
        return [("kw", k, self.T(v, st)) for k, v in sorted(kw.items())]

    def call_unknown(self, fv, um, args, kw, star, starkw, st, node):
        """Call of a value with no project identity; um = (receiver, method name) if it is a method call."""
        allin = list(args) + list(kw.values()) + [x for x in (star, starkw) if x is not None]
        g = frozenset().union(*[self.all_tags(x, st) for x in allin]) if allin else EMPTY
        if um is None:
            e = self.ev("callv", show(fv.t)[:60], node, st, recv=fv, args=args, kw=kw, star=(star, starkw))
            r = V(t=self.cap(("call", fv.t, *[self.T(x, st) for x in args], *self._kwterms(kw, st))), g=g | fv.g)
            h = self.intrinsics.get(("v",))
            if h is not None:
                r2 = h(self, st, e)
                r = r2 if r2 is not None else r
            e.ret = r
            return r
        recv, name = um
        e = self.ev("mcall", name, node, st, recv=recv, args=args, kw=kw, star=(star, starkw))
        h = self.intrinsics.get(("m", name))
        if h is not None:
            r = h(self, st, e)
            if r is not None:
                e.ret = r
                return r
        if self.cha is not None:
            fs = self.cha(self, recv, name, st)
            if fs:
                outs, states = [], []
                for f in fs:
                    s2 = st.copy()
                    r = self.call_func(f, [recv] + args, kw, (star, starkw), s2, node)
                    if not s2.dead:
                        outs.append(r)
                        states.append(s2)
                if states:
                    j, r = states[0], outs[0]
                    for s2, o2 in zip(states[1:], outs[1:]):
                        j, r = self.jst(j, s2), self.jv(r, o2)
                    st.assign_from(j)
                    e.ret = r
                    return r
        owners = self.holders(recv, st) if name in MUTATORS and recv.t[0] == "item" and self.loops_open(st) else ()
        if name in MUTATORS and recv.t[0] == "ite" and not owners and self.single_obj(recv, st) is not None:
            # only one of the alternatives is a container of this function
            new = self.extended(recv.t, name, args, st)
            tgt = node.func.value if isinstance(node, ast.Call) and isinstance(node.func, ast.Attribute) else None
            if isinstance(tgt, ast.Name) and tgt.id in st.env and st.env[tgt.id].t == recv.t:
                st.env[tgt.id] = recv.w(t=new, a=EMPTY)
                e.ret = self.const(None)
                return e.ret
        r = self.method_model(recv, name, args, kw, starkw, st, node, g)
        for oid in owners:
            h = st.heap[oid].clone()
            d, k = recv.t[1:3]
            mine = d == self.T(V(a=frozenset([("obj", oid)]), t=("s", f"<{oid}>")), st)
            new = ("cat", recv.t, ("list", self.T(args[0], st))) if name == "append" and len(args) == 1 else ("mcall", name, recv.t, *[self.T(x, st) for x in args])
            h.acc = V(t=self.cap(("cat", self.dacc(h, st), ("list", ("pair", k, new)))), n="V") if mine else V(t=("top", f"held#{next(self.ctr)}"), n="V")
            st.heap[oid] = h
        e.ret = r
        return r

    def extended(self, t, name, args, st):
        """The term of a container after a change."""
        if t[0] == "ite":
            return ("ite", t[1], self.extended(t[2], name, args, st), self.extended(t[3], name, args, st))
        old = self.deref(t, st, 0)
        return self.cap(("cat", old, ("list", self.T(args[0], st))) if name == "append" and len(args) == 1 else ("mcall", name, old, *[self.T(x, st) for x in args]))

    def holders(self, v, st):
        """Dictionaries with recorded stores that hold the container a looked-up value denotes."""
        mine = {a for a in v.a if a[0] == "obj"}
        out = []
        for oid, h in st.heap.items():
            if h.kind == "dict" and (h.acc is not None or self.loops_open(st)) and (self.T(V(a=frozenset([("obj", oid)]), t=("s", f"<{oid}>")), st) == v.t[1] or any(mine & set(x.a) for x in [*h.d.values(), *([h.summ] if h.summ is not None else [])])):
                out.append(oid)
        return out

    def _list_extend(self, so, rhs, st):
        oid, h = so
        h2 = h.clone()
        ex = self.exact_items(rhs, st)
        if ex is not None and h2.items is not None and not self.loops_open(st):
            h2.items = h2.items + ex
        else:
            el = None
            if ex is not None:
                for x in ex:
                    el = x if el is None else self.jv(el, x)
            else:
                el = self.element(rhs, ("L", f"ext{next(self.ctr)}"), st, None)
            if el is not None:
                s = h2.summ
                for x in h2.items or []:
                    s = x if s is None else self.jv(s, x)
                s = el if s is None else self.jv(s, el)
                h2.items, h2.summ = None, s
                self.grow(h, h2, self.seq(rhs, st), st)
        if h2.items is not None:
            h2.d.pop("#", None)
        st.heap[oid] = h2

    def loops_open(self, st):
        return any(isinstance(x, tuple) and x[0] == "inloop" for x in st.pc)

    def method_model(self, recv, name, args, kw, starkw, st, node, g):
        so = self.single_obj(recv, st)
        inplace = kw.get("inplace")
        if name in MUTATORS or (name in INPLACE_KW and inplace is not None and inplace.t != FALSE):
            self.ev("mutate", name, node, st, recv=recv, args=args, kw=kw)
        if so:
            oid, h = so
            if h.kind in ("list", "set"):
                if name in ("append", "add", "insert") and args:
                    x = args[-1]
                    h2 = h.clone()
                    if h2.items is not None and not self.loops_open(st) and name != "insert":
                        h2.items = h2.items + [x]
                    elif h2.items is not None and not self.loops_open(st) and args[0].t[0] == "k" and isinstance(args[0].t[1], int):
                        h2.items = list(h.items)
                        h2.items.insert(args[0].t[1], x)
                    else:
                        s = h2.summ
                        for y in h2.items or []:
                            s = y if s is None else self.jv(s, y)
                        s = x if s is None else self.jv(s, x, None)
                        if h.items == [] and h.summ is None:
                            s = x
                        h2.items, h2.summ = None, s
                        if name in ("append", "add"):
                            self.grow(h, h2, ("list", self.T(x, st)), st)
                        elif h.kind == "list":
                            h2.d["#"] = V(t=self.cap(("mcall", name, self.acc(h, st), *[self.T(y, st) for y in args])), n="V")
                            h2.summ = h2.summ.w(t=("top", f"insert#{next(self.ctr)}"))
                    st.heap[oid] = h2
                    return self.const(None)
                if name in ("extend", "update") and args:
                    self._list_extend(so, args[0], st)
                    return self.const(None)
                if name == "copy":
                    return self.new_obj(st, h.clone()).w(g=recv.g)
                if name in ("pop", "sort", "reverse", "clear", "remove") if h.kind == "list" else name in SET_SHRINK:
                    h2 = h.clone()
                    open_ = self.loops_open(st)
                    r = self.const(None)
                    if name == "clear" and not open_:
                        h2.items, h2.summ = [], None
                        h2.d.pop("#", None)
                    elif name == "pop" and h.items and not open_ and (not args or (args[0].t[0] == "k" and isinstance(args[0].t[1], int) and -len(h.items) <= args[0].t[1] < len(h.items))):
                        r = h2.items.pop(args[0].t[1] if args else -1)
                    elif name == "reverse" and h.items is not None and not open_:
                        h2.items = h2.items[::-1]
                    else:
                        if name == "pop":
                            r = self._dict_any(h) if h.summ else self.top("pop", g=recv.g)
                        sm = h2.summ
                        for y in h2.items or []:
                            sm = y if sm is None else self.jv(sm, y)
                        acc = self.acc(h, st)
                        h2.items, h2.summ = None, sm
                        if sm is None:
                            h2.items = []
                        else:
                            t = ("call", "sorted", acc, *[("kw", k, self.T(v, st)) for k, v in sorted(kw.items())]) if name == "sort" else ("mcall", name, acc, *[self.T(x, st) for x in args])
                            h2.summ = sm.w(t=("top", f"{name}#{next(self.ctr)}")) if name != "sort" else sm
                            h2.d["#"] = V(t=self.cap(t), n="V")
                    st.heap[oid] = h2
                    return r
                if name == "pop":
                    return self._dict_any(h) if h.summ else self.top("pop", g=recv.g)
                if name in ("index", "count"):
                    return V(t=("mcall", name, self.T(recv, st), *[self.T(x, st) for x in args]), g=recv.g | g, n="V")
                if name in ("union", "intersection", "difference", "symmetric_difference"):
                    return self.mk_list(st, None, self.element(recv, ("L", "set"), st, node), kind="set").w(g=recv.g | g)
            if h.kind == "dict":
                if name in ("keys", "values", "items"):
                    return V(a=frozenset([("iter", name, (recv,))]), t=("mcall", name, recv.t), g=recv.g, o=recv.o, n="V")
                if name in ("get", "pop", "setdefault") and args:
                    kt = args[0].t
                    dflt = args[1] if len(args) > 1 else kw.get("default", self.const(None))
                    if kt[0] == "k" and kt[1] in h.d:
                        r = h.d[kt[1]]
                        if kt[1] in h.may and (name != "pop" or len(args) > 1):
                            r = self.jv(r, dflt, h.may[kt[1]])
                    elif kt[0] == "k" and h.summ is None and h.sym is None:
                        r = dflt
                    else:
                        v = h.summ if kt[0] == "k" and h.summ is not None else self._dict_any(h)
                        r = self.jv(v.w(t=("item", v.t if v.t[0] == "starkw" else self.T(recv, st), kt), n="?"), dflt, ("cmp", "in", kt, self.T(recv, st)))
                        r = r.w(g=r.g | args[0].g)
                    h2 = h.clone()
                    if name in ("pop", "setdefault") and (h.acc is not None or kt[0] != "k"):
                        h2.acc = V(t=self.cap(("mcall", name, self.dacc(h, st), *[self.T(x, st) for x in args])), n="V")
                        st.heap[oid] = h2
                    if name == "pop" and kt[0] == "k" and kt[1] in h.d:
                        h2.d.pop(kt[1])
                        st.heap[oid] = h2
                    if kt[0] == "k" and name != "get":
                        h2.may = {x: y for x, y in h.may.items() if x != kt[1]}
                    if name == "setdefault" and kt[0] == "k":
                        h2.d[kt[1]] = r
                        st.heap[oid] = h2
                    return r
                if name == "copy":
                    return self.new_obj(st, h.clone()).w(g=recv.g)
                if name == "update":
                    h2 = h.clone()
                    parts, dyn = [], h.acc is not None
                    for a in args:
                        s2 = self.single_obj(a, st)
                        isd = s2 and s2[1].kind == "dict"
                        parts.append(self.dacc(s2[1], st) if isd else ("bag", ("pairs", self.T(a, st))))
                        if not (isd and s2[1].acc is None and s2[1].summ is None):
                            dyn = True
                    if dyn:
                        parts += [("list", ("pair", K(k), self.R(x, st))) for k, x in kw.items()]
                        h2.acc = V(t=self.cap(("cat", self.dacc(h, st), *parts)), n="V")
                    for a in args:
                        s2 = self.single_obj(a, st)
                        if s2 and s2[1].kind == "dict":
                            h2.d.update(s2[1].d)
                            if s2[1].summ is not None:
                                h2.summ = self.jv(h2.summ, s2[1].summ) if h2.summ else s2[1].summ
                        else:
                            x = V(t=("item", a.t, ("top", f"k#{next(self.ctr)}")), g=a.g, o=a.o)
                            h2.summ = self.jv(h2.summ, x) if h2.summ else x
                    h2.d.update(kw)
                    st.heap[oid] = h2
                    return self.const(None)
        tr = self.T(recv, st)
        if name in ("keys", "values", "items") and not args:
            return V(a=frozenset([("iter", name, (recv,))]), t=("mcall", name, tr), g=recv.g, o=recv.o, n="V")
        if name in SAME_METHODS:
            o = recv.o if name in VIEW_METHODS else EMPTY
            if name == "to_numpy" and kw.get("copy") is not None and kw["copy"].t == TRUE:
                o = EMPTY
            if name == "astype" and kw.get("copy") is not None and kw["copy"].t == FALSE:
                o = recv.o
            if self.keep_copies and name == "copy":
                tr = ("call", "copyof", tr)
            if name in ("astype", "view", "to_numpy", "__array__"):
                tr = cast(lossy(kw.get("dtype") or (args[0] if args else None)), tr)
            return V(t=tr, g=self.all_tags(recv, st) | (g if name == "astype" and False else EMPTY), o=o, n="V")
        if name == "get" and args:
            dflt = args[1] if len(args) > 1 else self.const(None)
            it = V(t=("item", tr, self.T(args[0], st)), g=recv.g | args[0].g, o=recv.o)
            return self.jv(it, dflt, ("cmp", "in", self.T(args[0], st), tr))
        if name in ("any", "all", "min", "max", "sum", "mean", "std") and not args:
            full = {"any": "numpy.any", "all": "numpy.all", "min": "numpy.min", "max": "numpy.max", "sum": "numpy.sum"}.get(name)
            if full:
                return V(t=("call", full, tr, *self._kwterms(kw, st)), g=self.all_tags(recv, st) | g, n="V")
        o = EMPTY
        if name in ("setdefault", "pop", "__getitem__", "iloc", "loc"):
            o = recv.o
        t = ("mcall", name, tr, *[self.T(x, st) for x in args], *self._kwterms(kw, st))
        if starkw is not None:
            t = t + (("kw", "**", starkw.t),)
        if name in DRAWS:
            # a draw repeated on the same path gives another value
            k = st.drawn.get(t, 0)
            st.drawn = {**st.drawn, t: k + 1}
            if k:
                t = t + (("kw", "draw#", ("k", k)),)
        return V(t=self.cap(t), g=self.all_tags(recv, st) | g, o=o)

    # ---- external functions
    def call_ext(self, name, args, kw, star, starkw, st, node):
        e = self.ev("ext", name, node, st, args=args, kw=kw, star=(star, starkw))
        h = self.intrinsics.get(name)
        if h is not None:
            r = h(self, st, e)
            if r is not None:
                e.ret = r
                return r
        r = self._ext(name, args, kw, star, starkw, st, node)
        e.ret = r
        return r

    def _ext(self, name, args, kw, star, starkw, st, node):
        allin = list(args) + list(kw.values()) + [x for x in (star, starkw) if x is not None]
        g = frozenset().union(*[self.all_tags(x, st) for x in allin]) if allin else EMPTY
        ts = [self.T(x, st) for x in args]
        if name in ("enumerate", "zip", "reversed", "range"):
            if name == "enumerate" and len(args) > 1:
                args = args[:1]
            v = V(a=frozenset([("iter", name, tuple(args))]), t=("call", name, *ts), g=g, o=frozenset().union(*[x.o for x in args]) if args else EMPTY, n="V")
            return v
        if name == "sorted":
            return V(a=frozenset([("iter", "sorted", tuple(args[:1]))]), t=("call", "sorted", *ts[:1], *[("kw", k, self.T(v, st)) for k, v in sorted(kw.items())]), g=g, n="V")
        if name == "functools.partial":
            if args:
                oid = f"part{next(self.ctr)}"
                st.heap[oid] = HObj("partial", extra=(args[0], tuple(args[1:]), dict(kw), starkw))
                return V(a=frozenset([("obj", oid)]), t=("s", f"<partial {show(args[0].t)}>"), g=g, n="V")
        if name in ("dict",):
            d, summ = {}, None
            if len(args) == 1 and not kw and starkw is None and self.single_obj(args[0], st) is None and self.exact_items(args[0], st) is None and not any(
                    a[0] == "iter" for a in args[0].a):
                r = self.mk_dict(st, {}, V(t=("item", args[0].t, ("top", f"k#{next(self.ctr)}")), g=args[0].g, o=args[0].o))
                st.heap[next(iter(r.a))[1]].acc = V(t=self.cap(self.pairs_of(args[0], st)), n="V")
                return r
            for a in args:
                so = self.single_obj(a, st)
                if so and so[1].kind == "dict":
                    d.update(so[1].d)
                    summ = so[1].summ
                else:
                    ex = self.exact_items(a, st)
                    if ex is not None and all(any(z[0] == "tup" and len(z[1]) == 2 for z in x.a) for x in ex):
                        for x in ex:
                            kk, vv = [z for z in x.a if z[0] == "tup"][0][1]
                            if kk.t[0] == "k":
                                d[kk.t[1]] = vv
                            else:
                                summ = vv
                    else:
                        summ = V(t=("item", a.t, ("top", f"k#{next(self.ctr)}")), g=a.g, o=a.o)
            d.update(kw)
            return self.mk_dict(st, d, summ)
        if name in ("list", "tuple", "set", "frozenset"):
            kind = "set" if name in ("set", "frozenset") else "list"
            if not args:
                return self.mk_list(st, [], kind=kind) if name != "tuple" else self.mk_tuple([])
            ex = self.exact_items(args[0], st)
            if ex is not None:
                return self.mk_tuple(ex) if name == "tuple" else self.mk_list(st, ex, kind=kind)
            so = self.single_obj(args[0], st)
            if so and so[1].kind in ("list", "set"):
                src_set = so[1].kind == "set"
                r = self.mk_list(st, None, so[1].summ, kind=kind)
                return r.w(g=args[0].g | r.g, t=("setorder", self.T(args[0], st)) if src_set and kind == "list" else r.t)
            el = self.element(args[0], ("L", f"conv{next(self.ctr)}"), st, node)
            if any(a[0] == "iter" for a in args[0].a):
                r = self.mk_list(st, None, el, kind=kind)
                return r
            if kind == "set":
                if el.t[:1] == ("elem",) and el.t[1] == ts[0] and el.t[1][:2] != ("call", "numpy.unique"):
                    el = el.w(t=("elem", ("call", "numpy.unique", el.t[1]), el.t[2]))       # its distinct entries
                r = self.mk_list(st, None, el, kind=kind)
                return r.w(g=r.g | args[0].g)
            return V(t=ts[0], g=self.all_tags(args[0], st), n="V")
        if name == "isinstance" and len(args) == 2:
            v, c = args
            so = self.single_obj(v, st)
            if so and so[1].kind == "inst" and so[1].cls is not None:
                cl = [self.prog.classes[a[1]] for a in c.a if a[0] == "cls"]
                if len(cl) == 1 and len(c.a) == 1:
                    if so[1].cls.is_sub(cl[0]):
                        return self.const(True)
                    if so[1].sym is None or not cl[0].is_sub(so[1].cls):
                        return self.const(False)
            if so and so[1].kind in ("list", "dict"):
                if c.t == ("x", so[1].kind):
                    return self.const(True)
                if c.t[0] == "x":
                    return self.const(False)
            if v.n == "N" and c.t[0] == "x":
                return self.const(False)
            if ts[1][0] == "tuple" and len(ts[1]) > 2 and all(x[0] == "x" for x in ts[1][1:]):
                return V(t=t_or([("call", "isinstance", ts[0], x) for x in ts[1][1:]]), g=v.g, n="V")
            return V(t=("call", "isinstance", ts[0], ts[1]), g=v.g, n="V")
        if name == "slice" and 1 <= len(args) <= 3 and not kw:
            return V(t=("slice", *([NONE, ts[0], NONE] if len(ts) == 1 else [*ts, NONE][:3])), g=g, n="V")
        if name == "getattr" and len(args) >= 2:
            if args[1].t[0] == "k" and isinstance(args[1].t[1], str):
                r = self.get_attr(args[0], args[1].t[1], st, node)
                if len(args) == 3:
                    r = self.jv(r, args[2], ("call", "hasattr", ts[0], ts[1]))
                return r
            return V(a=frozenset([("um", args[0], ("dyn", args[1].t))]), t=("call", "getattr", *ts), g=g, o=args[0].o)
        if name == "hasattr" and len(args) == 2:
            so = self.single_obj(args[0], st)
            if so and so[1].kind == "inst" and args[1].t[0] == "k" and so[1].cls is not None:
                nm = args[1].t[1]
                if nm in so[1].d or so[1].cls.find(nm) or so[1].cls.find_attr(nm):
                    return self.const(True)
            return V(t=("call", "hasattr", *ts), g=g, n="V")
        if name == "setattr" and len(args) == 3:
            if args[1].t[0] == "k":
                self.set_attr(args[0], args[1].t[1], args[2], st, node)
            else:
                self.ev("setattr", "<dynamic>", node, st, recv=args[0], args=[args[2]], extra=args[1])
            return self.const(None)
        if name == "callable" and args:
            v = args[0]
            if v.a and all(a[0] in ("fn", "bm", "cls") for a in v.a):
                return self.const(True)
            so = self.single_obj(v, st)
            if so and so[1].kind in ("closure", "partial"):
                return self.const(True)
            if v.n == "N":
                return self.const(False)
            return V(t=("call", "callable", ts[0]), g=v.g, n="V")
        if name == "type" and len(args) == 1:
            so = self.single_obj(args[0], st)
            if so and so[1].kind == "inst" and so[1].cls is not None:
                return V(a=frozenset([("cls", so[1].cls.qual)]), t=("x", so[1].cls.qual), n="V")
        if name == "len" and args:
            ex = self.exact_items(args[0], st)
            so = self.single_obj(args[0], st)
            if ex is not None and not self.loops_open(st):
                return self.const(len(ex))
            if so and so[1].kind == "inst" and so[1].cls is not None:
                f = so[1].cls.find("__len__")
                if f is not None:
                    return self.call_func(f, [args[0]], {}, None, st, node)
            return V(t=("call", "len", ts[0]), g=self.all_tags(args[0], st), n="V")
        if name in ("iter",) and args:
            return args[0]
        if name == "next" and args:
            so = self.single_obj(args[0], st)
            if so and so[1].kind == "list":
                return so[1].items[0] if so[1].items else (so[1].summ or self.top("next"))
            return V(t=("call", "next", *ts), g=g, o=args[0].o)
        if name in ("map",) and len(args) == 2:
            ex = self.exact_items(args[1], st)
            if ex is not None and len(ex) <= 24:
                return self.mk_list(st, [self.call(args[0], [x], {}, None, None, st, node) for x in ex])
            L = ("L", f"map{next(self.ctr)}")
            self.loops.append(L)
            q = st.copy()
            q.pc = q.pc + (("inloop", L[1]),)
            el = self.element(args[1], L, q, node)
            r = self.call(args[0], [el], {}, None, None, q, node)
            st.heap = q.heap
            self.loops.pop()
            return self.mk_list(st, None, r)
        if name in ("numpy.vectorize",) and args:
            return args[0].w(g=g) if args[0].a else V(t=args[0].t, g=g, n="V")
        if name in ("min", "max") and len(args) == 1:
            return V(t=("call", "numpy." + name, ts[0]), g=g, n="V")
        if name in ("any", "all", "sum") and len(args) == 1:
            return V(t=("call", "numpy." + name, ts[0]), g=g, n="V")
        if name in ("numpy.amin", "numpy.amax", "numpy.nanmin", "numpy.nanmax"):
            return V(t=("call", "numpy." + name[-3:], *ts, *self._kwterms(kw, st)), g=g, n="V")
        # numpy helpers that are value-transparent
        how = None
        if name.startswith("numpy."):
            at = {"numpy.full": 2, "numpy.full_like": 2}.get(name, 1)
            how = lossy(kw.get("dtype") or (args[at] if len(args) > at else None))
            if how and name in ("numpy.loadtxt", "numpy.genfromtxt", "numpy.fromfile", "numpy.frombuffer", "numpy.asarray_chkfinite") and args:
                return V(t=cast(how, ("call", name, *ts, *[x for x in self._kwterms(kw, st) if x[1] != "dtype"])), g=g, n="V")
        if name in SAME_FUNCS and args:
            v = args[0]
            if name in ("int", "numpy.float32"):
                return V(t=cast("int" if name == "int" else "f32", ts[0]), g=self.all_tags(v, st), n="V")
            ts[0] = cast(how, ts[0]) if name in ("numpy.array", "numpy.asarray", "numpy.asanyarray", "numpy.ascontiguousarray") else ts[0]
            o = v.o if name in VIEW_FUNCS or name in ("float_",) else EMPTY
            if name in ("numpy.array",) and kw.get("copy") is not None and kw["copy"].t == FALSE:
                o = v.o
            elif self.keep_copies and name in ("numpy.array", "jax.numpy.array", "copy.copy", "copy.deepcopy", "numpy.copy"):
                return V(t=("call", "copyof", ts[0]), g=self.all_tags(v, st), o=o, n="V")
            return V(t=ts[0], g=self.all_tags(v, st), o=o, n="V")
        if name in ("numpy.logical_and", "numpy.bitwise_and") and len(args) == 2:
            return V(t=t_and(ts), g=g, n="V")
        if name in ("numpy.logical_or", "numpy.bitwise_or") and len(args) == 2:
            return V(t=_or(ts), g=g, n="V")
        if name in ("numpy.logical_not", "numpy.invert") and len(args) == 1:
            return V(t=t_not(ts[0] if is_pred(ts[0]) else ("truth", ts[0])), g=g, n="V")
        if name in ("operator.and_",) and len(args) == 2:
            return V(t=t_and(ts), g=g, n="V")
        if name == "numpy.where" and len(args) == 3:
            return V(t=self.cap(t_ite(ts[0], ts[1], ts[2])), g=g, n="V")
        if name in ("numpy.where", "numpy.nonzero") and len(args) == 1:
            ix = V(t=("idx", ts[0]) if is_pred(ts[0]) else ("call", name, ts[0]), g=g, n="V")
            return self.mk_tuple([ix])
        if name in ("numpy.flatnonzero", "numpy.argwhere") and len(args) == 1:
            return V(t=("idx", ts[0]) if is_pred(ts[0]) else ("call", name, ts[0]), g=g, n="V")
        if name in ("numpy.full", "numpy.full_like") and (len(args) >= 2 or (args and "fill_value" in kw)):
            x = args[1] if len(args) >= 2 else kw["fill_value"]
            return V(t=("call", "cast:" + how, self.T(x, st)) if how else self.T(x, st), g=x.g if name == "numpy.full_like" else g, n="V")
        if name in ("numpy.zeros", "numpy.zeros_like"):
            return V(t=("call", "cast:" + how, ("k", 0.0)) if how else ("k", 0.0), g=EMPTY, n="V")
        if name in ("numpy.ones", "numpy.ones_like"):
            return V(t=("call", "cast:" + how, ("k", 1.0)) if how else ("k", 1.0), g=EMPTY, n="V")
        if name in ("numpy.empty", "numpy.empty_like"):
            return V(t=("call", "cast:" + how, ("uninit", 0)) if how else ("uninit", 0), g=EMPTY, n="V")
        if name in ("numpy.multiply", "numpy.divide", "numpy.true_divide", "numpy.add", "numpy.subtract", "numpy.power", "math.pow", "pow", "numpy.mod", "numpy.remainder", "numpy.floor_divide") and len(args) >= 2:
            op = {"numpy.multiply": "*", "numpy.divide": "/", "numpy.true_divide": "/", "numpy.add": "+", "numpy.subtract": "-", "numpy.power": "**", "math.pow": "**", "pow": "**", "numpy.mod": "%", "numpy.remainder": "%", "numpy.floor_divide": "//"}[name]
            if "out" in kw:
                self.ev("mutate", "out=", node, st, recv=kw["out"], args=args)
            return self.binop(op, args[0], args[1], st)
        if name in ("numpy.less", "numpy.less_equal", "numpy.greater", "numpy.greater_equal", "numpy.equal", "numpy.not_equal") and len(args) == 2:
            o = {"less": "<", "less_equal": "<=", "greater": ">", "greater_equal": ">=", "equal": "==", "not_equal": "!="}[name.split(".")[1]]
            return V(t=("cmp", o, ts[0], ts[1]), g=g, n="V")
        if name == "numpy.square" and args:
            return self.binop("*", args[0], args[0], st)
        if name == "numpy.negative" and args:
            return V(t=("bin", "-", ("k", 0), ts[0]), g=g, n="V")
        if name in ("math.sqrt",) and args:
            return V(t=("call", "numpy.sqrt", *ts), g=g, n="V")
        if name.startswith("math.") and args:
            return V(t=("call", "numpy." + name[5:], *ts), g=g, n="V")
        if name.startswith("jax.numpy.") and args:
            return self._ext("numpy." + name[10:], args, kw, star, starkw, st, node)
        if name in ("numpy.copyto", "numpy.put", "numpy.place", "numpy.putmask", "numpy.random.shuffle", "random.shuffle") and args:
            self.ev("mutate", name, node, st, recv=args[0], args=args[1:])
        if "out" in kw:
            self.ev("mutate", "out=", node, st, recv=kw["out"], args=args)
        if name in ("str",) and args and ts[0][0] == "k" and isinstance(ts[0][1], str):
            return args[0]
        # str(obj)/f-string of a project object
        if name in ("str", "repr") and args:
            so = self.single_obj(args[0], st)
            if so and so[1].kind == "inst" and so[1].cls is not None:
                f = so[1].cls.find("__str__")
                if f is not None:
                    return self.call_func(f, [args[0]], {}, None, st, node)
        t = ("call", name, *ts, *self._kwterms(kw, st))
        if star is not None:
            t = t + (("kw", "*", star.t),)
        if starkw is not None:
            t = t + (("kw", "**", starkw.t),)
        return V(t=self.cap(t), g=g, n="?")

    # ------------------------------------------------------------------ entry helpers
    def run(self, f, args=None, kw=None, st=None, selfv=None, sym_prefix="", starkw=None, given=None):
        """Analyse function f with symbolic arguments. `given` maps param name -> V."""
        st = st or St({}, {}, ())
        given = given or {}
        pos = []
        names = list(f.params)
        if f.cls is not None and not f.static:
            names = names[1:]
            pos.append(selfv)
        kwv = {}
        for p in names:
            pos.append(given.get(p) or V(t=("s", sym_prefix + p), g=frozenset([p]), o=frozenset([p])))
        for p in f.kwonly:
            kwv[p] = given.get(p) or V(t=("s", sym_prefix + p), g=frozenset([p]), o=frozenset([p]))
        if f.kwarg:
            for p in given:
                if p not in kwv and p not in f.params and p not in ("*", "**"):
                    kwv[p] = given[p]
        star = None
        if f.vararg and "*" in given:
            star = given["*"]
        if f.kwarg and starkw is None:
            starkw = given.get("**")
        # a pseudo-frame so that events have a home
        self.frames.append(Frame(f, f.mod, None, None, None))
        try:
            r = self.call_func(f, pos, kwv, (star, starkw), st, f.node)
        finally:
            self.frames.pop()
        return r, st
