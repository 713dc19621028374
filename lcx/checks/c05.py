"""C05: using an object changes nothing but what the operation is documented to change."""

import ast
import os
import re

from ..ctx import loc
from ..interp import St, V, show
from ..prog import deco_name
from ..rngs import install

EXPLAIN = """Effect analysis. Every public function, constructor and method (inherited ones once per concrete class) is interpreted abstractly with its callees inlined. Each value carries the
set of owners it may share memory with (a parameter, an attribute of the object, an argument of the constructor, a module or class level object); copies, arithmetic, masks and
conversions end the sharing, views and slices keep it. Every in-place construct reached (subscript store, deletion, mutating method, in-place operator, out=, attribute store) is an obligation:
its target must be fresh, or an owner the operation is documented to change. GraphState parameters are symbolic GraphStates whose own methods are interpreted too."""

NAMES = {"node_pos", "node_string", "node_name"}            # where a node sits in its graph: refreshed by every walk over it
CHANGES = re.compile(r"set_\w+|set|add_\w+|reset\w*|clear_\w+|filter_rows|process_transmission_tables?|update\w*|append\w*|remove_\w+|merge\w*|load\w*|fit\w*|__init__|__setitem__|__setattr__")
SAMPLING = {"compute", "generate", "sample_parameters", "__call__"}
COUNTERS = {"next_ind", "angular_sep_rad"}                  # position in a given list; the separation drawn last
# function name -> parameters it is documented to change
INPUTS = {
    "opsim_add_random_data": {"opsim_data"},
    "augment_single_lightcurve": {"results"},
    "results_augment_lightcurves": {"results"},
    "set_graph_positions": {"seen_nodes"},
    "process_transmission_tables": {"given_passbands"},
    "__init__": {"given_passbands"},
    "add_passband": {"given_passbands"},
}
ARRAYS = re.compile(r"array|list|dict|set\b|table|frame|series|matrix|sequence|iterable|ndarray", re.I)


def entries(cx):
    P = cx.P
    out = []
    for m in sorted(P.mods.values(), key=lambda m: m.name):
        for f in m.funcs.values():
            if not f.name.startswith("_"):
                out.append((None, f))
    for c in sorted(P.classes.values(), key=lambda c: c.qual):
        for n in sorted({n for k in c.mro() for n in k.methods}):
            f = c.find(n)
            if n.startswith("_") and n not in ("__getitem__", "__call__", "__eq__", "__len__", "__contains__", "__str__", "__iter__", "__init__"):
                continue
            out.append((c, f))
    with open(os.path.join(os.path.dirname(__file__), "c05_public.txt")) as fh:
        public = set(fh.read().split())     # helpers that are not among the documented operations are judged where they are used
    return [(c, f) for c, f in out if (f"{c.qual}." if c else f"{f.mod.name}.") + f.name in public]


def doc_types(f, cls=None):
    """Documented type of every parameter (and attribute) named in the docstrings."""
    out = {}
    docs = [ast.get_docstring(f.node) or ""]
    if cls is not None:
        docs += [ast.get_docstring(k.node) or "" for k in cls.mro()]
        docs += [ast.get_docstring(k.methods["__init__"].node) or "" for k in cls.mro() if "__init__" in k.methods]
    for d in docs:
        for m in re.finditer(r"^\s*\**(\w+)\s*:\s*(.+)$", d, re.M):
            out.setdefault(m.group(1), m.group(2))
    return out


GENERIC = {"set", "update", "append", "reset", "load", "fit", "merge"}


def changers(P):
    """Methods of the package that change their own object, by name (used where the receiver is only known to be an argument)."""
    return {n for c in P.classes.values() for n in c.methods if CHANGES.fullmatch(n) and not n.startswith("__") and n not in GENERIC}


def run(cx):
    cx.changers = changers(cx.P)
    cx.rule("memo", "a result kept between calls (lru_cache, cache, cached_property) reads nothing that an operation of its class changes", memo, cx)
    cx.max_term = 5000      # who owns a value does not need large terms
    es = entries(cx)
    cx.entries = len(es)
    for c, f in es:
        name = f"{c.name + '.' if c else ''}{f.name}"
        cx.rule(f"effects:{name}", "every in-place construct reachable from this operation acts on a fresh value or on what the operation is documented to change", one, cx, c, f, name)


MEMO = ("lru_cache", "cache", "cached_property", "memoize")


def self_attrs(f, store):
    """Attributes of self a method reads (store=False) or changes (store=True)."""
    out = set()
    me = f.params[0] if f.params and not f.static else None
    for n in ast.walk(f.node):
        if isinstance(n, ast.Attribute) and isinstance(n.value, ast.Name) and n.value.id == me:
            if isinstance(n.ctx, ast.Load) != store:
                out.add(n.attr)
        if store and isinstance(n, (ast.Subscript,)) and isinstance(n.ctx, (ast.Store, ast.Del)):
            v = n.value
            while isinstance(v, (ast.Subscript, ast.Attribute)) and not (isinstance(v, ast.Attribute) and isinstance(v.value, ast.Name) and v.value.id == me):
                v = v.value
            if isinstance(v, ast.Attribute):
                out.add(v.attr)
    return out


def memo(cx):
    P = cx.P
    n = 0
    for c in sorted(P.classes.values(), key=lambda c: c.qual):
        for f in c.methods.values():
            ds = [deco_name(d).rpartition(".")[2] for d in f.node.decorator_list]
            if not any(d in MEMO for d in ds):
                continue
            n += 1
            family = [k for k in P.classes.values() if c in k.mro() or k in c.mro()]
            reads, todo = set(), [f]
            seen = set()
            while todo:
                g = todo.pop()
                if g.qual in seen:
                    continue
                seen.add(g.qual)
                for a in self_attrs(g, False):
                    reads.add(a)
                    todo += [k.methods[a] for k in family if a in k.methods]
            for k in family:
                for m in k.methods.values():
                    if m.name == "__init__" or m.qual in seen:
                        continue
                    both = sorted(self_attrs(m, True) & reads)
                    if both:
                        cx.bad("memo", f"memo:{f.qual}", cx.where(f), f"{f.qual} keeps its result between calls but reads {', '.join(both)}, which {m.qual} changes")
    if not n:
        cx.ok("memo", "memo:none", "", "no method keeps results between calls")


def one(cx, c, f, name):
    init = f.name == "__init__"
    if c is not None and not f.static and not init:
        it, st, selfv = cx.built(c, install, "effects")
        h = st.heap["self"].clone()
        for k, v in list(h.d.items()):
            if isinstance(v, V):
                h.d[k] = v.w(o=frozenset({f"self.{k}"} | {x if x.startswith("init:") else f"init:{x}" for x in v.o if "." not in x and ":" not in x}))
        st.heap["self"] = h
    else:
        it = cx.interp()
        install(it)
        st, selfv = St({}, {}, ()), None
        if init:
            selfv = it.sym_obj(st, c, "self")
            st.heap["self"].sym = None
    given = {}
    if "graph_state" in f.call_params():
        given["graph_state"] = it.sym_obj(st, cx.P.cls("GraphState"), "GS")
    pre = set(st.heap)
    it.events.clear()
    it.run(f, selfv=selfv, st=st, given=given)
    cx.done(it)
    types = doc_types(f, c)
    n = 0
    changes = bool(CHANGES.fullmatch(f.name))
    rule = f"effects:{name}"
    for e in it.events:
        if not isinstance(e.recv, V) or not (e.kind in ("mutate", "setitem", "delitem", "setattr") or (e.kind == "mcall" and e.name in cx.changers)):
            continue
        if e.kind == "mcall" and (e.name == "set_graph_positions" or (changes and all(o.startswith(("init:", "self.")) for o in e.recv.o))):
            continue            # composites hand a change of theirs on to their children
        n += 1
        own = e.fn.split(".")[-1]
        attr = e.name if e.kind == "setattr" and isinstance(e.name, str) else None
        key = f"write:{e.fn}:{e.name}"
        bad = None
        if e.kind == "setitem" and e.recv.t[0] == "attr" and e.recv.t[2] == "attrs" and "self._table" in e.recv.o and f.name == "write_parquet":
            continue            # the survey values travel in the table's metadata
        if e.kind == "mutate" and e.extra in ("augname", "augattr"):
            # x += 1 changes the owner only when x is an array, a list or a table
            if not whole(e.recv.t) or not any(ARRAYS.search(types.get(base(o), "")) for o in e.recv.o):
                continue
        for o in sorted(e.recv.o):
            why = judge(o, f, own, attr, changes, init, e)
            if why:
                bad = bad or why
        for a in e.recv.a:
            if a[0] == "obj" and a[1] in pre and not bad:
                if a[1] == "self" or a[1].startswith("self"):
                    bad = None if init or changes or attr in NAMES or (f.name in SAMPLING and attr in COUNTERS) else f"the object's own {attr or 'state'}"
                elif a[1] == "GS":
                    bad = None if state_ok(f, e) else "the GraphState it was given"
                elif not (changes or init or attr in NAMES or (f.name in SAMPLING and attr in COUNTERS)):
                    bad = f"an object the model was built with ({attr or e.name})"
        if bad:
            cx.bad(rule, key, loc(e), f"{name} reaches {e.kind} {e.name} on {show(e.recv.t)[:80]}, which changes {bad}")
        else:
            cx.ok(rule, key, loc(e))
    if n == 0:
        cx.ok(rule, f"nowrite:{name}", cx.where(f), "no in-place construct reachable")


def base(o):
    return o.rpartition(":")[2].rpartition(".")[2]


def whole(t):
    """A value that is not a single element of an array or a table: only slices were taken of it."""
    while t[0] == "item":
        ks = t[2][1:] if t[2][0] == "tuple" else (t[2],)
        if not any(isinstance(k, tuple) and k and k[0] == "slice" for k in ks):
            return False
        t = t[1]
    return t[0] not in ("elem", "mu", "loop", "ix", "top", "idx")


def state_ok(f, e):
    """Sampling fills the GraphState it is given, through GraphState's own methods."""
    return f.name in SAMPLING | {"resample_and_compute"} or bool(CHANGES.fullmatch(f.name))


def judge(o, f, own, attr, changes, init, e):
    if o.startswith("self."):
        a = o[5:].split(".")[0]
        if init or changes or a in NAMES or (f.name in SAMPLING and a in COUNTERS):
            return None
        return f"the object's own {a}"
    if o.startswith("GS"):
        return None if state_ok(f, e) else "the GraphState it was given"
    p = o[5:] if o.startswith("init:") else o
    if own == "set_graph_positions" or p == "seen_nodes":
        return None
    if p in INPUTS.get(own, ()) or p in INPUTS.get(f.name, ()) or (p == "given_passbands" and own == "process_transmission_table"):
        return None
    if attr in NAMES:
        return None
    if o.startswith("init:"):
        return f"the argument {p} the object was built with"
    if o.startswith(("module:", "class:")):
        return f"the shared {o.partition(':')[2]}"
    if "." in p:
        return None if changes or init or attr in NAMES or (f.name in SAMPLING and p.split(".")[-1] in COUNTERS) else f"{p}, which is not its own"
    return f"the argument {p}"
