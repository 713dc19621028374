"""Reference semantics: documented behaviour written as small Python functions, interpreted by the same engine and compared by normal form.

A reference is parsed, never executed.  Its result term, and the conditions under which it rejects its input, are compared with
those extracted from the code under test, both started from the same symbolic arguments.
"""

import ast
import builtins
import copy
import itertools
import os
import re
import textwrap

from .interp import FALSE, NONE, TRUE, St, V, is_pred, show, subst, t_and, t_not, t_or
from .norm import Norm, Unknown, ok_heads, opaque_parts, shape, subterms
from .prog import AnalysisBroken, Func, Module, walk_own

HEADER = "import numpy as np\nimport math\nfrom lightcurvelynx import consts\n"


def spec_func(cx, src, cls=None, header="", home=None):
    """Parse reference source (one def) into a Func living in its own module (optionally seen as a method of cls).

    Names the reference neither defines nor imports are those of the module of the function under test (home).
    """
    body = textwrap.dedent(src)
    if home is not None:
        mine = {a.asname or a.name.split(".")[0] for n in ast.walk(ast.parse(HEADER + header)) if isinstance(n, (ast.Import, ast.ImportFrom)) for a in n.names}
        mine |= {n.id for n in ast.walk(ast.parse(HEADER + header + body)) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store)}
        top = {n.name for n in home.tree.body if isinstance(n, (ast.FunctionDef, ast.ClassDef))}
        top |= {x.id for n in home.tree.body if isinstance(n, (ast.Assign, ast.AnnAssign)) for x in ast.walk(n) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)}
        use = sorted({n.id for n in ast.walk(ast.parse(body)) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load)} & top - mine)
        header += f"\nfrom {home.name} import {', '.join(use)}\n" if use else ""
    d = ast.parse(body).body[-1]
    if cls is not None and isinstance(d, ast.FunctionDef) and hasattr(builtins, d.name):
        d.name += "_"  # a method called like a builtin must not hide it in its own body
        body = ast.unparse(d)
    src = HEADER + header + "\n" + body
    m = Module("lcxref", "<reference>", "<reference>", src)
    node = next(n for n in m.tree.body if isinstance(n, ast.FunctionDef))
    return Func(node, m, cls, f"lcxref.{node.name}")


def shapes(t):
    """Shapes (callee, number of positionals, keywords) of the calls of a reference; a keyword whose value is not constant may also be missing."""
    out, const = set(), {}
    todo = []
    for x in subterms(t):
        if x and x[0] in ("call", "mcall"):
            s = shape(x)
            out.add(s)
            kws = [(i, y) for i, y in enumerate(x[2:]) if isinstance(y, tuple) and y and y[0] == "kw"]
            ck = const.setdefault((s[0], s[1]), set())
            ck |= {y[1] for _, y in kws if not any(z[0] == "s" for z in subterms(y[2]))}
            if 0 < len(kws) <= 6:
                todo.append((s, [(i, y[1]) for i, y in kws]))
    for s, kws in todo:
        free = [i for i, k in kws if k not in const[(s[0], s[1])]]
        for n in range(1, len(free) + 1):
            for drop in itertools.combinations(free, n):
                out.add((s[0], s[1], tuple(k for i, k in enumerate(s[2]) if i not in drop)))
    return out


def guards(it, st_events, P, own):
    """Disjunction of the conditions under which an input is rejected by an explicit raise."""
    out = []
    for e in st_events:
        if e.kind == "raise" and e.name != "reraise" and not e.trys:
            out.append((t_and([c for c in e.pc if c[0] != "inloop"]), e))
    return out


def quants(t, b):
    """Quantifications of t over the entries of a collection (any, all, a set or dictionary built from it, a filtered list) which b does not use."""
    have = {x for x in subterms(b)}
    out = []
    for x in subterms(t):
        if x not in have and (x[0] in ("any", "all") or x[0] == "truth" and x[1][0] in ("setof", "bag", "filter", "list", "dictof", "any", "all", "bin") or x[0] == "cmp" and any(y[0] in ("dictof", "setof", "bag") or y[0] == "call" and y[1] == "len" and y[2][0] in ("dictof", "setof", "bag", "filter") for y in x[2:4]) or x[0] == "in" and x[2][0] in ("dictof", "setof", "bag")
                              or x[0] == "call" and x[1] in ("any", "all", "numpy.any", "numpy.all") or x[0] == "call" and x[1] == "len" and x[2][0] in ("setof", "dictof", "bag", "bin")):
            out.append(x)
    return out


def flagged(b):
    """Whether b decides something by going through the entries of a collection and setting a flag."""
    return any(x[0] == "loop" and len(x) == 5 and x[3] in (TRUE, FALSE, ("k", True), ("k", False)) for x in subterms(b))


def idiom(f, ref):
    """The code builds its collections in another way than the reference, which the terms do not relate: None, or the way."""
    def calls(n):
        return {x.func.attr if isinstance(x.func, ast.Attribute) else getattr(x.func, "id", "") for x in ast.walk(n) if isinstance(x, ast.Call)}
    def tests(n, ops):
        return [x for x in ast.walk(n) if isinstance(x, ast.Compare) and isinstance(x.ops[0], ops)]
    one, two = calls(f), calls(ref)
    keyed = bool(tests(ref, (ast.In, ast.NotIn)))
    if "setdefault" in one - two and any(
            isinstance(x, ast.If) and isinstance(x.test, ast.Compare) and isinstance(x.test.ops[0], (ast.In, ast.NotIn)) and any(
                isinstance(y, ast.Subscript) and isinstance(y.ctx, ast.Store) and ast.dump(y.value) == ast.dump(x.test.comparators[0]) and ast.dump(y.slice) == ast.dump(x.test.left)
                for y in ast.walk(x)) for x in ast.walk(ref)):
        return "setdefault"
    if keyed and "get" in one - two and len(tests(f, (ast.Is, ast.IsNot))) > len(tests(ref, (ast.Is, ast.IsNot))) and len(tests(f, (ast.In, ast.NotIn))) < len(tests(ref, (ast.In, ast.NotIn))):
        return "get"
    if "insert" in two - one and one & {"concatenate", "append", "hstack", "diff", "ediff1d"} - two:
        return "another way to put an array together"
    if any(isinstance(x, ast.Delete) for x in ast.walk(ref)) and not any(isinstance(x, ast.Delete) for x in ast.walk(f)):
        new = [sum(isinstance(x, (ast.Dict, ast.DictComp)) for x in ast.walk(n)) for n in (f, ref)]
        if new[0] > new[1]:
            return "a new dictionary instead of deletions"
    own = [sum(isinstance(x.comparators[0], ast.Name) and x.comparators[0].id == "self" for x in tests(n, (ast.In, ast.NotIn))) for n in (f, ref)]
    if own[0] > own[1]:
        return "membership of the object itself"
    return None


def empties(c, e):
    """Conditions under which a loop around a check does not run."""
    ls = {x[1] for x in e.pc if x[0] == "inloop"}
    seqs = {y[1] for y in subterms(c) if y and y[0] in ("elem", "key") and len(y) == 3 and y[2] in ls}
    return [("cmp", "==", ("call", "len", y), ("k", 0)) for y in seqs]


def method_table(P):
    """Method name -> agreed positional parameter order (without self), over every definition of that name in the package."""
    sigs, defs = {}, {}
    for c in P.classes.values():
        for name, f in c.methods.items():
            if f.static or f.prop or name.startswith("__"):
                continue
            sigs.setdefault(name, []).append(f)
    for name, fs in sigs.items():
        n = min(len(f.params) for f in fs)
        order = []
        for i in range(1, n):
            ps = {f.params[i] for f in fs}
            if len(ps) != 1:
                break
            order.append(ps.pop())
        dn = {p for f in fs for p, d in f.defaults.items() if isinstance(d, ast.Constant) and d.value is None}
        dn -= {p for f in fs for p in f.all_params if not (p in f.defaults and isinstance(f.defaults[p], ast.Constant) and f.defaults[p].value is None)}
        defs[name] = (order, dn)
    return defs


EXTERNAL = {"append", "extend", "get", "items", "keys", "values", "copy", "sum", "min", "max", "mean", "update", "add", "remove", "pop", "insert", "sort", "reset_index", "to_table"}


def call_canon(P):
    """Rewrite calls of package methods on unknown receivers so that positional and keyword spellings agree."""
    tab = P.__dict__.setdefault("_method_table", None) or method_table(P)
    P._method_table = tab

    def rw(t):
        if t[0] == "mcall" and isinstance(t[1], str) and t[1] in tab and t[1] not in EXTERNAL and len(t) >= 3:
            order, dn = tab[t[1]]
            pos = [x for x in t[3:] if not (isinstance(x, tuple) and x and x[0] == "kw")]
            kws = {x[1]: x[2] for x in t[3:] if isinstance(x, tuple) and x and x[0] == "kw"}
            if any(isinstance(x, tuple) and x and x[0] == "star" for x in pos) or len(pos) > len(order):
                return None
            for p, x in zip(order, pos):
                if p in kws:
                    return None
                kws[p] = x
            return ("mcall", t[1], t[2], *[("kw", k, v) for k, v in sorted(kws.items()) if not (v == NONE and k in dn)])
        if t[0] == "call" and isinstance(t[1], str) and t[1].startswith("fn:"):
            return tuple(x for x in t if not (isinstance(x, tuple) and x and x[0] == "kw" and x[2] == NONE))
        return None

    def safe(t):
        r = rw(t)
        return None if r == t else r

    return safe


def both(a, b):
    if b is None:
        return a

    def rw(t):
        r = a(t)
        r2 = b(r if r is not None else t)
        return r2 if r2 is not None else r

    return rw


def spec_names(P, t):
    """Package methods and uninterpreted functions the reference calls: their calls are comparable whatever the arguments."""
    tab = P._method_table
    out = set()
    for x in subterms(t):
        if x and x[0] == "mcall" and x[1] in tab and x[1] not in EXTERNAL:
            out.add(x[1])
            out.add(OPPOSITE.get(x[1], x[1]))
    used = {x[1] for x in subterms(t) if x and x[0] == "mcall"}
    for group in CASE, ENDS:
        if not used & group and not (group is ENDS and any(x and x[0] == "slice" for x in subterms(t))):
            out |= group    # text the reference takes as it is
    return out


FILLS = {"append", "extend", "[]=", "update", "insert", "add"}
CASE, ENDS = {"lower", "upper", "casefold", "title", "capitalize", "swapcase"}, {"startswith", "endswith"}


# methods that answer different questions: one in place of the other is a difference, not an unknown
OPPOSITE = {a: b for x, y in (("minwave", "maxwave"), ("apply", "apply_bandflux"), ("compute_sed", "compute_bandflux")) for a, b in ((x, y), (y, x))}


def selections(t, rw):
    """Distinct boolean row selections in a term, chains combined, elementwise wrappers removed."""
    out, seen = [], set()
    sub = set()
    pre = Norm(strip=False, rw=rw).prep(t)
    for x in subterms(pre):
        if x and x[0] == "sel" and is_pred(x[2]) and x not in seen:
            seen.add(x)
            ms, y = [], x
            while y[0] == "sel" and is_pred(y[2]):
                ms.append(y[2])
                if y is not x:
                    sub.add(y)
                y = y[1]
            out.append((x, t_and(ms)))
    res = []
    for x, m in out:
        if x not in sub and m not in res:
            res.append(m)
    return res


class Ref:
    def __init__(self, cx, rule):
        self.cx, self.rule = cx, rule

    def run(self, f, selfv_of=None, given=None, sym_prefix="", spec=None, uninterp=(), copies=False):
        it = self.cx.interp()
        it.keep_copies = copies
        it.uninterp = set(uninterp)
        st = St({}, {}, ())
        selfv = None
        if f.classm:
            c = cx.P.cls(spec) if isinstance(spec, str) else (spec or f.cls)
            selfv = V(a=frozenset([("cls", c.qual)]), t=("x", c.qual), n="V")
        elif f.cls is not None and not f.static:
            selfv = selfv_of(it, st) if selfv_of else self.cx.self_obj(it, st, spec or f.cls)
        g = {k: (v(it, st) if callable(v) else v) for k, v in (given or {}).items()}
        if f.kwarg:
            g.setdefault("**", V(t=("s", "**"), g=frozenset(["**"]), o=frozenset(["**"])))
        r, st = it.run(f, selfv=selfv, st=st, given=g, sym_prefix=sym_prefix)
        self.cx.done(it)
        return it, st, r

    def __call__(self, f, src, given=None, assume=(), cls=None, key=None, raises=True, header="", rw=None, ok_funcs=(), what="", selfv_of=None, strip=True,
                 post=None, uninterp=(), attrs=(), calls=(), ret=(), copies=False):
        before = len(self.cx.obs)
        r = self.one(f, src, given, assume, cls, key, raises, header, rw, ok_funcs, what, selfv_of, strip, post, uninterp, attrs, calls, ret, copies)
        ref = next((n for n in ast.parse(textwrap.dedent(src)).body if isinstance(n, ast.FunctionDef)), None)
        how = idiom(f.node, ref) if ref is not None and isinstance(f.node, ast.FunctionDef) else None
        if how:
            for i in range(before, len(self.cx.obs)):
                if self.cx.obs[i][0] == "bad":
                    self.cx.obs[i] = ("unknown", *self.cx.obs[i][1:4], how, *self.cx.obs[i][5:])
        return r

    def one(self, f, src, given, assume, cls, key, raises, header, rw, ok_funcs, what, selfv_of, strip, post, uninterp, attrs, calls, ret, copies):
        cx = self.cx
        key = key or (f"{f.cls.name}.{f.name}" if f.cls else f.name)
        g = spec_func(cx, src, f.cls, header, f.mod)
        g.static, g.classm = f.static, f.classm
        it1, st1, r1 = self.run(f, selfv_of, given, spec=cls, uninterp=uninterp, copies=copies)
        it2, st2, r2 = self.run(g, selfv_of, given, spec=cls, uninterp=uninterp, copies=copies)
        t1, t2 = it1.T(r1, st1), it2.T(r2, st2)
        self.t2 = t2
        if post:
            t1, t2 = post(t1), post(t2)
        if any(x[:1] == ("loop",) and len(x) == 5 and x[3] == ("uninit", 0) for x in subterms(t2)) and not any(x[:1] == ("loop",) and len(x) == 5 and x[3][0] == "k" for x in subterms(t2)):
            # every entry is written: what the array holds before does not matter
            t1 = subst(t1, {x: (*x[:3], ("uninit", 0), x[4]) for x in subterms(t1) if x[:1] == ("loop",) and len(x) == 5 and x[3][0] == "k"})
        cx.nterms += 1
        rw = both(call_canon(cx.P), rw)
        if any(x[:2] == ("call", "numpy.outer") for x in subterms(t2)) and not any(x[:2] == ("call", "numpy.outer") for x in subterms(t1)) and it1.newaxes:
            # a product of two arrays each given the axis of the other
            t2 = subst(t2, {x: ("bin", "*", x[2], x[3]) for x in subterms(t2) if x[:2] == ("call", "numpy.outer") and len(x) == 4})
        n = Norm(strip=strip, rw=rw)
        b = n.prep(t2)
        okf = set(ok_funcs) | spec_names(cx.P, b)
        ok_shapes = shapes(b)
        asm = list(assume)
        ng = [t_not(c) for c, _ in guards(it2, it2.events, cx.P, g)]
        try:
            res, w = n.compare(t1, t2, given=[*asm, *ng], ok_funcs=okf, ok_shapes=ok_shapes)
        except RecursionError:
            res, w = "unknown", "recursion"
        if res == "neq" and flagged(b) and quants(n.prep(t1), b):
            res, w = "unknown", "decided over the whole collection"
        if res == "neq":
            cx.bad(self.rule, key, cx.where(f), f"{what or key}: extracted {show(n.prep(t1))[:260]} differs from the required {show(b)[:220]} when {w}")
        elif res == "eq":
            cx.ok(self.rule, key, cx.where(f), what)
        else:
            cx.unk(self.rule, key, cx.where(f), f"{what}: {w}")
        if strip:
            self.masks(f, key, t1, t2, rw, [*asm, *ng])
            self.axes(f, key, it1, it2, rw)
        for name in attrs:
            self.attr(f, key, name, (it1, st1), (it2, st2), rw, okf, [*asm, *ng])
        for name in ret:
            self.attr(f, key, name, (it1, st1), (it2, st2), rw, okf, [*asm, *ng], (r1, r2))
        if calls:
            own = [t_not(c) for c, _ in guards(it1, it1.events, cx.P, f)]
            self.calls(f, key, calls, it1, st1, it2, st2, rw, okf, [*asm, *ng, *own])
        if raises:
            self.guards(f, key, it1, it2, g, rw, asm)
        return it1, st1, r1

    def any(self, f, srcs, **k):
        """The implementation matches one of several acceptable references; returns the index of the one that matched."""
        cx, keep, first = self.cx, self.cx.obs, None
        for i, src in enumerate(srcs):
            cx.obs = []
            self(f, src, **k)
            got, cx.obs = cx.obs, keep
            if all(o[0] == "ok" for o in got):
                cx.obs += got
                return i
            if first is None or (any(o[0] == "bad" for o in first) and not any(o[0] == "bad" for o in got)):
                first = got
        cx.obs += first
        return None

    def _cmp(self, key, f, t1, t2, rw, okf, given, what):
        cx = self.cx
        cx.nterms += 1
        if not any(x[0] == "rep" for x in subterms(t1)):
            # a list of one constant, entries of which are overwritten: entry by entry
            t2 = subst(t2, {x: x[1] for x in subterms(t2) if x[0] == "rep" and x[1][0] == "k"})
        n = Norm(rw=rw)
        b = n.prep(t2)
        try:
            res, w = n.compare(t1, t2, given=given, ok_funcs=okf | spec_names(cx.P, b), ok_shapes=shapes(b))
        except RecursionError:
            res, w = "unknown", "recursion"
        if res == "neq" and flagged(b) and quants(n.prep(t1), b):
            res, w = "unknown", "decided over the whole collection"
        if res == "neq":
            cx.bad(self.rule, key, cx.where(f), f"{what}: extracted {show(n.prep(t1))[:260]} differs from the required {show(b)[:220]} when {w}")
        elif res == "eq":
            cx.ok(self.rule, key, cx.where(f), what)
        else:
            cx.unk(self.rule, key, cx.where(f), f"{what}: {w}")

    def attr(self, f, key, name, one, two, rw, okf, given, rets=None):
        """Final value of an attribute of the instance (or of the returned object)."""
        vals = []
        for i, (it, st) in enumerate((one, two)):
            if rets is None:
                h = st.heap.get("self")
            else:
                so = it.single_obj(rets[i], st)
                h = so[1] if so and so[1].kind == "inst" else None
                if h is None:
                    self.cx.unk(self.rule, f"{key}:result.{name}", self.cx.where(f), "the returned object is not known")
                    return
            v = h.d.get(name) if h is not None else None
            vals.append(None if v is None else it.T(v, st))
        if vals[1] is None:
            return
        if rets is not None:
            key += ":result"
        if vals[0] is None:
            self.cx.bad(self.rule, f"{key}.{name}", self.cx.where(f), f"{key}: attribute {name} is no longer set")
            return
        self._cmp(f"{key}.{name}", f, vals[0], vals[1], rw, okf, given, f"{key}: attribute {name}")
        self.masks(f, f"{key}.{name}", vals[0], vals[1], rw, given)

    def axes(self, f, key, it1, it2, rw):
        """An array given a second axis runs along the same one as in the reference."""
        n = Norm(rw=rw)
        want, got = {}, {}
        for it, out in ((it1, got), (it2, want)):
            for t, ks in it.newaxes.items():
                out.setdefault(n.prep(t), set()).update(ks)
        for b in want:
            if b in got and not got[b] & want[b] and not any(e.name in ("T", "transpose", "numpy.transpose", "swapaxes", "numpy.swapaxes") for e in it1.events):
                self.cx.bad(self.rule, f"{key}:axis:{show(b)[:60]}", self.cx.where(f), f"{key}: {show(b)[:80]} runs along the {'last' if 'N:' in got[b] else 'first'} axis, required the {'last' if 'N:' in want[b] else 'first'}")

    def masks(self, f, key, t1, t2, rw, given):
        """Every boolean selection applied to the data is one of the selections of the reference."""
        want, got = selections(t2, rw), selections(t1, rw)
        if not want:
            return
        found = [False] * len(want)
        for m in got:
            n = Norm(rw=rw)
            pm = n.prep(m)
            res = False
            for i, w in enumerate(want):
                try:
                    r = True if pm == n.prep(w) else n.equiv(m, w, given=given)[0]
                    if r is False and (opaque_parts(pm, (), shapes(n.prep(w)), ok_heads(n.prep(w)))):
                        r = None
                except (Unknown, RecursionError):
                    r = None
                if r is not False:
                    found[i] = found[i] or r
                    res = r if res is not True else True
                if r is True:
                    found[i] = True
            self.cx.verdict(res, self.rule, f"{key}:selection:{show(m)[:80]}", self.cx.where(f),
                            "" if res else f"{key}: data selected by {show(m)[:160]}, required {'; '.join(show(w)[:100] for w in want)[:300]}")
        n = Norm(strip=False, rw=rw)
        b = n.prep(t2)
        op = None
        for i, w in enumerate(want):
            if found[i] is False:
                if op is None:
                    okb = set(subterms(b))
                    op = [x for x in opaque_parts(n.prep(t1), spec_names(self.cx.P, b), shapes(b), ok_heads(b)) if x not in okb]
                self.cx.verdict(None if op else False, self.rule, f"{key}:selects:{show(n.prep(w))[:80]}", self.cx.where(f), f"{key}: data is no longer selected by {show(n.prep(w))[:200]}")

    def calls(self, f, key, names, it1, st1, it2, st2, rw, okf, given):
        """Calls of the named (uninterpreted) functions: the same calls, with the same arguments, under the same conditions."""
        cx = self.cx

        def gather(it, st):
            out = []
            for e in it.events:
                if e.kind == "call" and e.extra == "uninterpreted" and e.name.rsplit(".", 1)[-1] in names:
                    out.append((e, e.name.rsplit(".", 1)[-1], e.ret.t))
                elif e.kind == "mcall" and e.name in names:
                    out.append((e, e.name, ("mcall", e.name, it.T(e.recv, st), *[it.T(a, st) for a in e.args], *[("kw", k, it.T(v, st)) for k, v in sorted(e.kw.items())])))
                elif e.kind == "setattr" and "=" + e.name in names:
                    out.append((e, "=" + e.name, ("mcall", "=" + e.name, it.T(e.recv, st), it.T(e.args[0], st))))
                elif e.kind == "setitem" and "[]=" in names:
                    out.append((e, "[]=", ("mcall", "[]=", it.T(e.recv, st), *[it.T(a, st) for a in e.args])))
                elif e.kind == "ext" and e.name in names:
                    out.append((e, e.name, ("call", e.name, *[it.T(a, st) for a in e.args], *[("kw", k, it.T(v, st)) for k, v in sorted(e.kw.items())])))
            return [(x, nm, own(y, st)) for e, nm, t in out for x, y in split(e, t)]

        def split(e, t):
            """A call on one of two objects is a call on each under its condition."""
            if t[0] == "mcall" and t[2][0] == "ite" and len(e.pc) < 12:
                c = t[2][1] if is_pred(t[2][1]) else ("truth", t[2][1])
                for q, r in ((c, t[2][2]), (t_not(c), t[2][3])):
                    e2 = copy.copy(e)
                    e2.pc = (*e.pc, q)
                    yield from split(e2, ("mcall", t[1], r, *t[3:]))
            else:
                yield e, t

        def own(t, st):
            """A key of a dictionary of this function: the dictionary is named by the keys it was created with."""
            sub = {}
            for x in subterms(t):
                if len(x) == 3 and x[0] == "key" and x[1][0] == "s" and str(x[1][1])[:1] == "<":
                    h = st.heap.get(x[1][1][1:-1])
                    if h is not None and h.kind == "dict":
                        sub[x] = ("key", ("s", "dict of " + ",".join(sorted(map(str, h.d)))), x[2])
            return subst(t, sub) if sub else t

        mine, want = gather(it1, st1), gather(it2, st2)
        shp = set().union(*[shapes(Norm(rw=rw).prep(tw)) for _, _, tw in want])

        def match(w, tw, m, tm):
            n = Norm(rw=rw)
            b = n.prep(tw)
            pcw = t_and([c for c in w.pc if c[0] not in ("inloop", "exc")])
            try:
                res, why1 = n.compare(tm, tw, given=[*given, pcw], ok_funcs=okf | spec_names(cx.P, b), ok_shapes=shp)
                if res == "eq":
                    pcm = t_and([c for c in m.pc if c[0] not in ("inloop", "exc")])
                    r, wit = Norm(rw=rw).equiv(pcm, pcw, given=given)
                    if r is False:
                        n2 = Norm(rw=rw)
                        op = opaque_parts(n2.prep(pcm), okf, shapes(n2.prep(pcw)), ok_heads(n2.prep(pcw)))
                        res, why1 = ("unknown", "condition") if op else ("neq", f"made under {show(n2.prep(pcm))[:120]}")
            except (Unknown, RecursionError):
                res, why1 = "unknown", "undecided"
            return res, why1

        got = {}
        for i, (w, nm, tw) in enumerate(want):
            got[i] = {}
            for k, (m, nm1, tm) in enumerate(mine):
                if nm1 == nm:
                    got[i][k] = match(w, tw, m, tm)
                    if got[i][k][0] == "eq":
                        break
        taken = {k for d in got.values() for k, r in d.items() if r[0] == "eq"}
        for i, (w, nm, tw) in enumerate(want):
            best, why = False, "no such call"
            pcw = t_and([c for c in w.pc if c[0] not in ("inloop", "exc")])
            if best is False and not any(r[0] == "eq" for r in got[i].values()) and nm in FILLS:
                rt = it2.T(w.recv, st2)
                local = nm == "append" and Norm(rw=rw).prep(rt)[0] in ("list", "cat")     # a list of its own: what becomes of it is compared
                other = any((e.name if e.kind != "setitem" else "[]=") in FILLS - {x[1] for x in want} for e in it1.events if e.kind in ("mcall", "mutate", "setitem"))
                if local or other:
                    cx.unk(self.rule, f"{key}:calls:{show(Norm(rw=rw).prep(tw))[:90]}", cx.where(f), "filled in another way")
                    continue
            if not any(x[1] == nm for x in mine) and w.kind == "mcall":
                rt = it2.T(w.recv, st2)
                first = [e for e in it1.events if nm == "append" and e.kind in ("mcall", "mutate") and e.name == "insert" and e.recv is not None and it1.T(e.recv, st1) == rt
                         and e.args and it1.T(e.args[0], st1) == ("k", 0)]
                if first:
                    why = f"put first instead of last at line {first[0].line}"
                elif any(e.kind in ("mutate", "setattr", "augassign") and e.name != nm and (
                        (e.recv is not None and it1.T(e.recv, st1) == rt) or (rt[0] == "attr" and e.name == rt[2])) for e in it1.events):
                    best = None
            for k, (res, why1) in got[i].items():
                if res == "eq":
                    best = True
                    break
                if k in taken:
                    continue
                if res == "unknown":
                    best = None
                elif best is False:
                    why = f"found {show(Norm(rw=rw).prep(mine[k][2]))[:200]} ({why1})"
            cx.verdict(best, self.rule, f"{key}:calls:{show(Norm(rw=rw).prep(tw))[:90]}", cx.where(f),
                       "" if best else f"{key}: required call {show(Norm(rw=rw).prep(tw))[:200]} under {show(pcw)[:80]}: {why}")
        if len(mine) > len(want) and all(o[0] == "ok" for o in cx.obs if o[2].startswith(f"{key}:calls:")) and want:
            cx.unk(self.rule, f"{key}:extra-calls", cx.where(f), "more calls than the reference")

    def over(self, f, key, mine, want, rw, asm):
        """Input the reference accepts is not rejected by a condition over the facts the reference itself decides on."""
        n = Norm(rw=rw)
        w = t_or([c for c, _ in want])
        # the first entry of an empty collection cannot be taken: such input is not valid
        lens = {x for c, _ in mine for x in subterms(n.prep(c)) if x[:2] == ("call", "len")}
        first = {n.prep(x[1]) for x in subterms(self.t2) if x[0] == "item" and len(x) == 3 and x[2] == ("k", 0)}
        asm = [*asm, *[("cmp", ">=", x, ("k", 1)) for x in sorted(lens, key=repr) if x[2] in first]]
        try:
            known = n.facts(n.prep(w))
            for c, e in mine:
                c = n.prep(c)
                if any(x[0] in ("exc", "top", "loop", "mu") for x in subterms(c)) or quants(c, n.prep(w)) or not n.facts(c) <= known:
                    continue
                r, wit = n.implies(c, w, given=asm)
                if r is False and not re.search(r"1\*len\([^;]*\^1 ~ \d*\.5", n.show_asg(wit)):      # a length is a whole number
                    self.cx.bad(self.rule, f"{key}:over-rejects", f"{f.file}:{e.line}", f"{key}: valid input is rejected when {n.show_asg(wit)} (raise at line {e.line})")
        except (Unknown, RecursionError):
            pass

    def guards(self, f, key, it1, it2, g, rw, asm):
        cx = self.cx
        mine = guards(it1, it1.events, cx.P, f)
        want = guards(it2, it2.events, cx.P, g)
        if mine:
            n = Norm(rw=rw)
            try:
                ng = [t_not(c) for c, _ in want]
                r, _ = n.implies(t_and([*asm, *ng]), t_or([c for c, e in mine if not any(x[0] in ("exc", "inloop") for x in e.pc)]))
                if r is True and n.implies(t_and([*asm, *ng]), FALSE)[0] is False:
                    cx.bad(self.rule, f"{key}:always-raises", cx.where(f), f"{key}: every input is rejected (raise at line {mine[-1][1].line})")
            except (Unknown, RecursionError):
                pass
        if not want:
            return
        if mine and not any(x[0] == "top" for c, _ in want for x in subterms(c)):
            self.over(f, key, mine, want, rw, asm)
        n = Norm(rw=rw)
        got = t_or([c for c, _ in mine]) if mine else FALSE
        same = {n.prep(c) for c, _ in mine}
        allw = {x for c, _ in want for x in subterms(n.prep(c))}
        for c, e in want:
            if any(x[0] == "top" for x in subterms(c)):
                cx.verdict(None, self.rule, f"{key}:rejects:{show(c)[:60]}", cx.where(f), "the reference condition is unknown")
                continue
            try:
                r, w = (True, "") if n.prep(c) in same else n.implies(c, got, given=asm)
                if r is True and n.prep(c) not in same and not any(x[0] == "inloop" for x in e.pc):
                    # a check inside a loop rejects nothing when there is nothing to loop over
                    run = [x for x, y in mine if not any(n.implies(t_and([c, x]), z, given=asm)[0] is True for z in empties(x, y))]
                    if len(run) < len(mine):
                        r, w = n.implies(c, t_or(run) if run else FALSE, given=asm)
                if r is False:
                    w = n.show_asg(w)
                    pc = n.prep(c)
                    known = set(subterms(pc))
                    op = [x for x in opaque_parts(n.prep(got), (), shapes(pc), ok_heads(pc)) if x not in known and x not in allw]
                    if any(quants(n.prep(x), ("t", *[n.prep(y) for y, _ in want])) for x, _ in mine):
                        r, w = None, "decided over the whole collection"
                    elif op:
                        r, w = None, "uninterpreted " + show(op[0])[:80]
                    elif any(x[0] == "exc" for x in known):
                        r, w = None, "error handling differs"
            except (Unknown, RecursionError):
                r, w = None, "undecided"
            cx.verdict(r, self.rule, f"{key}:rejects:{show(n.prep(c))[:60]}", cx.where(f),
                       "" if r else f"{key}: input with {show(n.prep(c))[:160]} is no longer rejected ({w})")


# ---------------------------------------------------------------- reference files
def refrules(cx, name, rules):
    """Queue the references of lcx/refsrc/<name>.py (parsed, never imported): one rule per group, {rule: text}.

    Each definition there is the documented behaviour of the function or method of that name; its decorator @ref(rule, **options) says how it is compared.
    Several definitions of one name are alternatives, any of which is acceptable.
    """
    path = os.path.join(os.path.dirname(os.path.abspath(__file__)), "refsrc", name + ".py")
    with open(path) as fh:
        src = fh.read()
    tree = ast.parse(src)
    header = "\n".join(ast.unparse(n) for n in tree.body if isinstance(n, (ast.Import, ast.ImportFrom, ast.Assign))) + "\n"
    items = {}
    for n in tree.body:
        for d, c in [(x, n.name) for x in n.body] if isinstance(n, ast.ClassDef) else [(n, None)]:
            if isinstance(d, ast.FunctionDef):
                dec = next(x for x in d.decorator_list if isinstance(x, ast.Call) and ast.unparse(x.func).split(".")[0] == "ref")
                kw = {k.arg: ast.literal_eval(k.value) for k in dec.keywords}
                d.decorator_list = []
                items.setdefault((ast.literal_eval(dec.args[0]), c, d.name, ast.unparse(dec.func)), []).append((ast.unparse(d), kw))
    for (rule, c, fn, how), alts in items.items():
        cx.rule(rule, rules[rule], one_ref, cx, rule, c, fn, how, alts, header, group=f"{c}.{fn}.{how}")


def one_ref(cx, rule, c, fn, how, alts, header):
    kw = dict(alts[0][1])
    mod = kw.pop("module", None)
    if c is None:
        f = cx.P.func(fn, mod)
    elif how == "ref.setter":
        f = cx.P.cls(c).find_setter(fn)
        if f is None:
            raise AnalysisBroken(f"no setter {c}.{fn}")
    else:
        f = cx.P.method(c, fn)
    r = Ref(cx, rule)
    given = {k: (lambda it, st, v=v: it.const(v)) for k, v in kw.pop("const", {}).items()}
    if given:
        kw["given"] = given
    key = (f"{c}.{fn}" if c else fn) + (".setter" if how == "ref.setter" else "") + kw.pop("tag", "")
    if "assume" in kw:
        kw["assume"] = [cond(cx, f, a, header) for a in kw["assume"]]
    step = kw.pop("step", False)
    if step:
        one_step(cx, r, f, alts[0][0], header, key, kw)
    if len(alts) == 1:
        r(f, alts[0][0], header=header, key=key, **kw)
    else:
        r.any(f, [a[0] for a in alts], header=header, key=key, **kw)


class _Step(ast.NodeTransformer):
    """continue of the outermost loop becomes the end of its step."""

    def __init__(self, ret):
        self.ret = ret

    def visit_Continue(self, n):
        return ast.copy_location(ast.parse(self.ret).body[0], n)

    def visit_For(self, n):
        return n

    visit_While = visit_FunctionDef = visit_Lambda = visit_For


def loop_step(node):
    """One step of the only loop of a function, as a function of what the loop carries: (state, rebound, targets, source)."""
    loops = [n for n in node.body if isinstance(n, ast.For)]
    if len(loops) != 1 or loops[0].orelse or any(isinstance(n, (ast.Break, ast.Return, ast.Yield, ast.Nonlocal)) for n in ast.walk(loops[0])):
        return None
    lp = loops[0]
    before = node.body[:node.body.index(lp)]
    init = {n.id for b in before for n in ast.walk(b) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store)}
    used = {n.id for b in lp.body for n in ast.walk(b) if isinstance(n, ast.Name)}
    bound = {n.id for n in walk_own(ast.Module(lp.body, [])) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store)}
    targets = [n.id for n in ast.walk(lp.target) if isinstance(n, ast.Name)]
    state, rebound = sorted(init & used), sorted(init & bound)
    ret = "return (" + "".join(f"{x}, " for x in rebound) + ")"
    body = [_Step(ret).visit(copy.deepcopy(b)) for b in lp.body]
    body.append(ast.parse(ret).body[0])
    return state, rebound, targets, body


def step_func(name, state, targets, body):
    d = ast.parse(f"def {name}({', '.join(state + targets)}):\n    pass").body[0]
    d.body = body
    return ast.fix_missing_locations(d)


def one_step(cx, r, f, src, header, key, kw):
    """The loop of a function, compared step by step: what one pass does to what the loop carries."""
    ref = next(n for n in ast.parse(textwrap.dedent(src)).body if isinstance(n, ast.FunctionDef))
    one, two = loop_step(f.node), loop_step(ref)
    key += ":step"
    if one is None or one[:2] != two[:2] or len(one[2]) != len(two[2]):
        cx.unk(r.rule, key, cx.where(f), "the loop carries other names")
        return
    ren = dict(zip(two[2], one[2]))
    for b in two[3]:
        for n in ast.walk(b):
            if isinstance(n, ast.Name) and n.id in ren:
                n.id = ren[n.id]
    g = Func(step_func(f.node.name, one[0], one[2], one[3]), f.mod, None, f.qual)
    r(g, ast.unparse(step_func(f.node.name, one[0], one[2], two[3])), header=header, key=key, **kw)


def cond(cx, f, text, header):
    """Predicate over the parameters of f, as a term."""
    g = spec_func(cx, f"def f({', '.join(f.all_params)}):\n    return {text}", f.cls, header)
    g.static, g.classm = f.static, f.classm
    it, st, r = Ref(cx, "").run(g)
    return it.pred(r, st)
