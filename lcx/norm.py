"""Normal forms for extracted terms.

Arithmetic: exact generalised polynomials (Fraction coefficients, rational exponents, exponentials with symbolic exponents);
two terms are equal iff their difference clears to zero.  Predicates: comparisons become regions of linear forms, string tests
become finite choices, everything else opaque boolean atoms; implication and equivalence are decided by enumerating the (finite)
regions.  Nothing is executed and no solver is called.
"""

from __future__ import annotations

import zlib
from fractions import Fraction

from .interp import FALSE, NEG, NONE, TRUE, K, is_pred, show, t_and, t_ite, t_not, t_or

F1 = Fraction(1)
NINF, PINF = float("-inf"), float("inf")


class Unknown(Exception):
    """The normaliser met something it has no theory for: no verdict."""


# ------------------------------------------------------------------ term preprocessing
ALIAS = {
    "jax.numpy": "numpy", "math": "numpy", "scipy.special": "numpy",
}
FNAMES = {"abs": "numpy.abs", "numpy.absolute": "numpy.abs", "numpy.fabs": "numpy.abs", "numpy.arcsin": "numpy.asin", "numpy.arccos": "numpy.acos",
          "numpy.arctan2": "numpy.atan2", "numpy.radians": "numpy.deg2rad", "numpy.degrees": "numpy.rad2deg", "min": "numpy.min", "max": "numpy.max",
          "numpy.amin": "numpy.min", "numpy.amax": "numpy.max", "any": "numpy.any", "all": "numpy.all", "sum": "numpy.sum", "numpy.fmax": "numpy.maximum",
          "numpy.fmin": "numpy.minimum"}
KNOWN_FUNCS = {"numpy." + x for x in (
    "abs", "sqrt", "log10", "log", "exp", "sin", "cos", "tan", "asin", "acos", "atan2", "deg2rad", "rad2deg", "min", "max", "sum", "mean", "any", "all",
    "maximum", "minimum", "power", "square", "floor", "ceil", "round", "isnan", "isfinite", "where", "sign", "clip", "log1p", "expm1", "log2", "median",
    "rint", "around", "nan_to_num", "trunc", "fix", "trapezoid", "trapz", "interp", "searchsorted", "argmin", "argmax", "outer", "cumsum", "diff", "dot", "matmul", "isin", "unique", "lexsort", "argsort", "hypot", "logical_or.reduce", "logical_and.reduce")} | {"len", "copyof", "sort!", "round", "uninitialised", "lastof"}

AXIS_SECOND = {"numpy." + x for x in ("sum", "mean", "median", "std", "cumsum", "prod", "argmin", "argmax")}
AXIS_FUNCS = AXIS_SECOND | {"numpy.trapezoid", "numpy.trapz", "scipy.integrate.trapezoid", "numpy.diff", "numpy.linspace"}

# Signatures of library functions: their calls are compared argument by argument, a missing argument counting as its default.
SIGS = {
    "numpy.take": "a, indices, axis=None, out=None, mode='raise'",
    "numpy.searchsorted": "a, v, side='left', sorter=None",
    "numpy.insert": "arr, obj, values, axis=None",
    "numpy.delete": "arr, obj, axis=None",
    "numpy.unique": "ar, return_index=False, return_inverse=False, return_counts=False, axis=None",
    "numpy.bincount": "x, weights=None, minlength=0",
    "numpy.repeat": "a, repeats, axis=None",
    "numpy.tile": "A, reps",
    "numpy.interp": "x, xp, fp, left=None, right=None, period=None",
    "numpy.concatenate": "arrays, axis=0",
    "numpy.vstack": "tup", "numpy.hstack": "tup", "numpy.column_stack": "tup",
    "numpy.allclose": "a, b, rtol=1e-05, atol=1e-08, equal_nan=False",
    "numpy.isclose": "a, b, rtol=1e-05, atol=1e-08, equal_nan=False",
    "numpy.isin": "element, test_elements, assume_unique=False, invert=False",
    "numpy.array_equal": "a1, a2, equal_nan=False",
    "numpy.sort": "a, axis=-1", "numpy.resize": "a, new_shape", "numpy.outer": "a, b",
    "numpy.loadtxt": "fname, dtype=None, comments='#', delimiter=None, converters=None, skiprows=0, usecols=None, unpack=False, ndmin=0, encoding=None, max_rows=None",
    "numpy.savetxt": "fname, X, fmt='%.18e', delimiter=' ', newline='\\n', header='', footer='', comments='# '",
    "pandas.read_csv": "filepath_or_buffer, sep=',', delimiter=None, header='infer', comment=None",
    "pandas.read_parquet": "path, engine='auto', columns=None",
    "scipy.integrate.cumulative_trapezoid": "y, x=None, dx=1.0, axis=-1, initial=None",
    "scipy.integrate.trapezoid": "y, x=None, dx=1.0, axis=-1",
    "numpy.trapezoid": "y, x=None, dx=1.0, axis=-1",
    "scipy.interpolate.InterpolatedUnivariateSpline": "x, y, w=None, bbox=None, k=3, ext=0",
    # methods of random generators
    ".uniform": "low=0.0, high=1.0, size=None", ".normal": "loc=0.0, scale=1.0, size=None", ".random": "size=None", ".standard_normal": "size=None",
    ".integers": "low, high=None, size=None, endpoint=False", ".choice": "a, size=None, replace=True, p=None, axis=0, shuffle=True",
    # methods of tables and paths
    ".dropna": "axis=0, how='any', thresh=None, subset=None, inplace=False", ".sort_values": "by, axis=0, ascending=True, inplace=False, kind='quicksort', na_position='last', ignore_index=False",
    ".reset_index": "level=None, drop=False, inplace=False", ".mkdir": "mode=511, parents=False, exist_ok=False", ".unlink": "missing_ok=False",
    ".split": "sep=None, maxsplit=-1", ".rsplit": "sep=None, maxsplit=-1", ".strip": "chars=None",
    "pooch.retrieve": "url, known_hash, fname=None, path=None, processor=None, downloader=None, progressbar=False",
}
IGNORED_KW = {"dtype", "keepdims", "copy", "engine", "encoding"}


def _sigs():
    import ast
    out = {}
    for n, s in SIGS.items():
        a = ast.parse(f"def f({s}): pass").body[0].args
        names = [x.arg for x in a.args]
        d = {k: ("k", ast.literal_eval(v)) for k, v in zip(names[len(names) - len(a.defaults):], a.defaults)}
        out[n] = names, d
    return out


SIGS = _sigs()


def bind(n, args):
    """Arguments of a library call in the order of its signature, defaults left out (None: not expressible)."""
    names, d = SIGS[n]
    pos = [x for x in args if x[0] != "kw"]
    if len(pos) > len(names) or any(x[0] == "star" for x in pos) or any(x[0] == "kw" and x[1] == "**" for x in args):
        return None
    got = dict(zip(names, pos))
    for x in args:
        if x[0] == "kw":
            if x[1] in got:
                return None
            got[x[1]] = x[2]
    if any(k not in got for k in names if k not in d):
        return None
    neg = got.get("axis", d.get("axis", NONE))
    if neg != NONE and not (neg[0] == "k" and isinstance(neg[1], (int, float)) and neg[1] >= 0):
        return None
    req = [k for k in names if k not in d]
    num = lambda x: type(x) in (int, float)  # noqa: E731
    same = lambda v, w: v[0] == "k" and v[1] == w[1] and (type(v[1]) is type(w[1]) or n[0] == "." and num(v[1]) and num(w[1]))  # noqa: E731
    return [*[got[k] for k in req], *[("kw", k, v) for k, v in sorted(got.items()) if k not in req and k not in IGNORED_KW and not (k in d and same(v, d[k]))]]


def bound(x):
    """The call is in the canonical form bind() gives."""
    b = bind(x[1], x[2:])
    return b is not None and tuple(b) == x[2:]


OBJ_METHODS = set()     # the methods of the package's own classes (filled by Cx)


def prep(t, sub=None, strip=True, memo=None, rw=None):
    """Rewrite a raw term: apply substitutions, strip elementwise wrappers, unify function names."""
    memo = {} if memo is None else memo

    def go(t):
        if not isinstance(t, tuple) or not t:
            return t
        if t in memo:
            return memo[t]
        r = go2(t)
        if rw is not None:
            r2 = rw(r)
            if r2 is not None:
                r = r2
        memo[t] = r
        return r

    def go2(t):
        if sub:
            if t in sub:
                return sub[t]
        h = t[0]
        if h in ("k", "s", "x", "top", "uninit"):
            return t
        if h == "loop" and len(t) == 5 and overwritten(t):
            return go(("call", "lastof", t[4][3]))
        if h == "loop" and len(t) == 5:
            m = map_loop(t) or cat_loop(t)
            if m is not None:
                return go(m)
        if strip and h == "mcall" and t[2][0] in ("sel", "elem") and t[1] in OBJ_METHODS:
            # a method of one object of a collection: not an elementwise operation on the collection
            return go(("mcall", t[1], ("each", t[2][1]), *t[3:]))
        if strip and ((h == "mcall" and t[1] in OBJ_METHODS) or (h == "call" and isinstance(t[1], str) and t[1].startswith("fn:"))):
            # what such a method is given: one element of a collection is not the collection
            one = [("kw", x[1], single(x[2])) if x[0] == "kw" else single(x) for x in t[2:]]
            if one != list(t[2:]):
                return go((h, t[1], *one))
        if strip and h == "cmp" and t[2] != t[3] and t[2][0] not in ("k", "s") and t[3][0] not in ("k", "s"):
            # two different elements of one collection
            x = go(t[2])
            if x == go(t[3]):
                return ("cmp", t[1], x, ("other", x))
        if strip and h in ("sel", "elem", "key"):
            x = go(t[1])
            if x[:2] == ("call", "sort!") and t[1][:2] != ("call", "paired"):
                return ("call", "sorted", *x[2:])       # a loop in sorted order: whether the order matters is not decided
            return x
        if strip and h in ("bag", "setorder"):
            return go(t[1])
        if h == "store":
            base, key, val = go(t[1]), go(t[2]), go(t[3])
            k = key
            if k[0] == "tuple":
                rest = [x for x in k[1:] if x != ("slice", NONE, NONE, NONE) and x != NONE]
                if len(rest) == 1:
                    k = rest[0]
                elif not rest:
                    return val
            if k[0] == "idx":
                k = k[1]
            if is_pred(k):
                return t_ite(k, val, base)
            if k == ("slice", NONE, NONE, NONE) or k == ("k", Ellipsis):
                return val
            if strip and k[0] == "ix":
                return val
            return ("store", base, key, val)
        r = tuple(go(x) if isinstance(x, tuple) else x for x in t)
        if sub and r in sub:
            return sub[r]
        h = r[0]
        if h == "filter":
            x, c = r[1], r[2] if is_pred(r[2]) or r[2][0] == "truth" else ("truth", r[2])
            if x[0] == "filter":
                x, c = x[1], t_and([x[2], c])
            return x if c == TRUE else ("list",) if c == FALSE else ("filter", x, c)
        if h == "setof":
            return set_core(r[1])
        if h == "set":
            return set_core(("list", *r[1:]))
        if h == "cmp" and r[1] in ("in", "notin") and r[3][:2] == ("call", "sort!"):
            return ("cmp", r[1], r[2], r[3][2])
        if h == "item" and r[1][:2] == ("call", "sort!") and len(r[1]) == 3 and r[2] in (("k", 0), ("k", -1)):
            return go(("call", "numpy.min" if r[2][1] == 0 else "numpy.max", r[1][2]))
        if h == "cmp" and r[1] in ("in", "notin") and r[3][0] == "setof" and r[3][1][0] not in ("cat", "flat", "list"):
            return ("cmp", r[1], r[2], r[3][1])
        if h == "cat":
            return join_seq(r[1:], strip)
        if h == "flat":
            return flat_seq(r[1], strip)
        if h == "loop":
            return canon_loop(r)
        if h == "lam" and len(r) == 4:
            return canon_lam(r)
        if h == "ite" and r[3] == NONE and r[1][0] == "cmp" and r[1][1] == "in" and r[2] == ("item", r[1][3], r[1][2]):
            return r[2]          # d.get(k): an absent key counts as None
        if h == "ite":
            c, a, b = r[1], r[2], r[3]
            if c[0] == "truth" and (is_pred(c[1]) or c[1][0] == "truth"):
                c = c[1]
            if c[0] == "cmp" and c[1] in ("isnot", "notin", "!="):
                c, a, b = ("cmp", NEG[c[1]], c[2], c[3]), b, a
            return t_ite(c, a, b)
        if h == "truth" and (is_pred(r[1]) or r[1][0] == "truth"):
            return r[1]
        if h == "and":
            return t_and(list(r[1:]))
        if h == "or":
            return t_or(list(r[1:]))
        if h == "not":
            return t_not(r[1])
        if h == "boolop":
            return t_and(list(r[2:])) if r[1] == "and" else t_or(list(r[2:]))
        if h == "item" and strip and r[2][0] in ("ix",):
            return r[1]
        if h == "item" and r[1][0] == "store" and r[2][0] == "k" and r[1][2][0] == "k":
            return r[1][3] if r[1][2] == r[2] else go(("item", r[1][1], r[2]))
        if h == "item" and r[2][0] == "k" and isinstance(r[2][1], int) and r[1][0] == "bin" and r[1][3][0] == "k" and r[1][2][:2] == ("call", "numpy.searchsorted"):
            q = r[1][2]         # several values looked up at once
            if len(q) > 3 and q[3][0] in ("list", "tuple") and 0 <= r[2][1] < len(q[3]) - 1:
                return go(("bin", r[1][1], (*q[:3], q[3][1 + r[2][1]], *q[4:]), r[1][3]))
        if h == "item" and r[1][0] == "dictof":
            v = last_store(r[1][1], r[2])
            if v is not None:
                return v
        if h == "bin" and r[1] == "+" and (r[2][0] in ("list", "cat") or r[3][0] in ("list", "cat")):
            return join_seq(r[2:], strip)
        if h == "mcall" and (r[1] in ("min", "max", "sum", "any", "all", "mean") and len(r) == 3 or r[1] in ("sum", "mean", "std", "cumsum", "prod", "argmin", "argmax")
                             and (len(r) == 3 or len(r) == 4 and (r[3][0] == "k" and isinstance(r[3][1], (int, float)) or r[3][:2] == ("kw", "axis")))):
            return go(("call", "numpy." + r[1], *r[2:]))
        if h == "mcall" and isinstance(r[1], str) and "." + r[1] in SIGS:
            w = next((i for i, x in enumerate(r) if i > 2 and x[:2] == ("kw", "size") and x[2][0] == "ite"), None)
            if w is not None:
                c, one, two = r[w][2][1:4]
                return t_ite(c, *[go(("mcall", r[1], r[2], *r[3:w], ("kw", "size", x), *r[w + 1:])) for x in (one, two)])
            extra = [x for x in r[3:] if x[:2] == ("kw", "draw#")]
            b = bind("." + r[1], [x for x in r[3:] if x[:2] != ("kw", "draw#")])
            if b is not None:
                return ("mcall", r[1], r[2], *b, *extra)
        if h == "mcall" and r[1] == "where" and len(r) == 5:
            return t_ite(r[3], r[2], r[4])
        if h == "call" and isinstance(r[1], str):
            n = r[1]
            for a, b in ALIAS.items():
                if n.startswith(a + "."):
                    n = b + n[len(a):]
            n = FNAMES.get(n, n)
            if n == "paired":
                return r[2]
            if n == "pathlib.Path" and len(r) > 2 and not any(x[0] in ("kw", "star") for x in r[2:]):
                x = r[2]
                if not (x[0] == "call" and x[1] == "pathlib.Path") and not (x[0] == "bin" and x[1] == "/"):
                    x = ("call", "pathlib.Path", x) if len(r) > 3 else None
                if x is not None:
                    for y in r[3:]:
                        x = ("bin", "/", x, y)
                    return x
            if n == "sorted" or n == "numpy.sort" and len(r) == 3:
                return sort_core(r[2:])
            if n in ORDERLESS and len(r) >= 3:
                r = (*r[:2], *[y[2] if y[:2] == ("call", "sort!") else y for y in r[2:]])
            if n in SIGS or n in AXIS_FUNCS:
                w = next((i for i, x in enumerate(r) if i > 1 and x[:2] == ("kw", "axis") and x[2][0] == "ite"), None)
                if w is not None:
                    c, one, two = r[w][2][1:4]
                    return t_ite(c, *[go(("call", n, *r[2:w], ("kw", "axis", x), *r[w + 1:])) for x in (one, two)])
            if n in SIGS:
                b = bind(n, r[2:])
                return ("call", n, *(r[2:] if b is None else b))
            args = [x for x in r[2:] if not (isinstance(x, tuple) and x and x[0] == "kw" and x[1] in ("dtype", "axis", "keepdims", "copy", "initial"))]
            if n in AXIS_FUNCS:
                ax = [x[2] for x in r[2:] if isinstance(x, tuple) and x and x[0] == "kw" and x[1] == "axis"]
                if not ax and n in AXIS_SECOND and len(args) == 2 and args[1][0] == "k":
                    ax, args = [args[1]], args[:1]
                if ax and ax[0] != NONE:
                    n += "@" + (str(int(ax[0][1])) if ax[0][0] == "k" and isinstance(ax[0][1], (int, float)) and ax[0][1] >= 0 else "?" + repr(ax[0]))
            if n == "copyof":
                x = args[0]
                if x[0] == "ite":
                    return t_ite(x[1], go(("call", n, x[2])), go(("call", n, x[3])))
                return ("call", n, x) if x[0] in ("s", "attr", "item", "elem", "key", "sel") else x
            if n in ("numpy.any", "numpy.all") and len(args) == 1 and args[0][0] == "filter":
                x = args[0][1] if is_pred(args[0][1]) else ("truth", args[0][1])
                c = args[0][2]
                return ("call", n, t_and([c, x]) if n == "numpy.any" else t_or([t_not(c), x]))
            if n == "numpy.where" and len(args) == 3:
                return t_ite(args[0], args[1], args[2])
            if n == "numpy.logical_or.reduce" and len(args) == 1 and args[0][0] in ("list", "tuple"):
                return t_or(list(args[0][1:]))
            if n == "numpy.logical_and.reduce" and len(args) == 1 and args[0][0] in ("list", "tuple"):
                return t_and(list(args[0][1:]))
            if n in ("numpy.square",) and args:
                return ("bin", "*", args[0], args[0])
            if n == "numpy.power" and len(args) == 2:
                return ("bin", "**", args[0], args[1])
            if n == "numpy.clip" and len(args) == 3:
                x = args[0]
                if args[1] != NONE:
                    x = ("call", "numpy.maximum", x, args[1])
                if args[2] != NONE:
                    x = ("call", "numpy.minimum", x, args[2])
                return go(x)
            if n == "numpy.hypot" and len(args) == 2:
                return ("call", "numpy.sqrt", ("bin", "+", ("bin", "*", args[0], args[0]), ("bin", "*", args[1], args[1])))
            if n == "numpy.maximum" and len(args) == 2:
                return t_ite(("cmp", ">=", args[0], args[1]), args[0], args[1])
            if n == "numpy.minimum" and len(args) == 2:
                return t_ite(("cmp", "<=", args[0], args[1]), args[0], args[1])
            if n in ("numpy.max", "numpy.min") and len(args) == 2:
                return t_ite(("cmp", ">=" if n.endswith("max") else "<=", args[0], args[1]), args[0], args[1])
            if n == "numpy.abs" and len(args) == 1:
                return t_ite(("cmp", ">=", args[0], ("k", 0)), args[0], ("bin", "-", ("k", 0), args[0]))
            if n == "numpy.deg2rad" and len(args) == 1:
                return ("bin", "/", ("bin", "*", args[0], ("x", "pi")), ("k", 180))
            if n == "numpy.rad2deg" and len(args) == 1:
                return ("bin", "/", ("bin", "*", args[0], ("k", 180)), ("x", "pi"))
            if n == "numpy.log2" and len(args) == 1:
                return ("bin", "/", ("call", "numpy.log", args[0]), ("call", "numpy.log", ("k", 2)))
            if n == "numpy.log1p" and len(args) == 1:
                return ("call", "numpy.log", ("bin", "+", ("k", 1), args[0]))
            if n == "numpy.expm1" and len(args) == 1:
                return ("bin", "-", ("call", "numpy.exp", args[0]), ("k", 1))
            return ("call", n, *args)
        return r

    return go(t)


# Functions that give the same for their arguments in any order (numpy.sum of floats up to rounding).
ORDERLESS = {"len", "set", "frozenset", "numpy.min", "numpy.max", "numpy.sum", "numpy.any", "numpy.all", "numpy.unique", "numpy.isin", "numpy.mean", "numpy.median"}
IN_ORDER = {"numpy.unique", "range", "numpy.arange", "numpy.flatnonzero"}


def sort_core(args):
    """sorted(x): the values of x in order; nothing to do for what is in order already."""
    x, kws = args[0], [a for a in args[1:] if a[0] == "kw" and not (a[1] == "key" and a[2] == NONE or a[1] == "reverse" and a[2] in (("k", False), ("k", 0)))]
    if any(y[0] != "kw" for y in args[1:]) or x[0] in ("setof", "set", "setorder", "bag") or x[:2] in (("call", "set"), ("call", "frozenset")):
        return ("call", "sorted", *args)
    if x[:2] == ("call", "sort!") and (not any(k[1] == "key" for k in kws) or list(x[3:]) == kws):
        x = x[2]
    if x[0] == "ite":
        return t_ite(x[1], sort_core((x[2], *kws)), sort_core((x[3], *kws)))
    if x[0] == "item" and x[1][:2] in (("call", "numpy.where"), ("call", "numpy.nonzero")) and len(x[1]) == 3 and not kws:
        return x
    if x[0] == "call" and x[1] in IN_ORDER and not kws or x[0] in ("list", "tuple") and len(x) <= 2:
        return x
    return ("call", "sort!", x, *sorted(kws, key=repr))


def last_store(acc, key):
    """What a dictionary built by a sequence of stores holds under a key (None: not known)."""
    if acc[0] == "ite":
        a, b = last_store(acc[2], key), last_store(acc[3], key)
        if a is None and b is None:
            return None
        return t_ite(acc[1], *[x if x is not None else ("item", ("dictof", y), key) for x, y in ((a, acc[2]), (b, acc[3]))])
    if acc[0] == "cat" and acc[-1][0] == "list" and len(acc[-1]) > 1 and acc[-1][-1][0] == "pair" and acc[-1][-1][1] == key:
        return acc[-1][-1][2]
    return None


def set_core(x):
    """A set holds its members once, in no order."""
    parts = x[1:] if x[0] == "cat" else (x,)
    items, rest = [], []
    for p in parts:
        if p[0] == "setof":
            p = p[1]
        if p[0] == "flat" and p[1][0] != "list":
            rest.append(p)
        elif p[0] in ("list", "tuple", "set"):
            items += p[1:]
        else:
            rest.append(p)
    items, rest = sorted(set(items), key=repr), sorted(set(rest), key=repr)
    if not rest:
        return ("set", *items)
    if items:
        rest.insert(0, ("list", *items))
    return ("setof", rest[0] if len(rest) == 1 else ("cat", *rest))


def single(x):
    """An argument that is one element of a collection (or a list of copies of one)."""
    y = x
    while y[0] == "bag" and y[1][0] in ("bag", "elem") and (y[1][0] == "bag" or not any(p[:1] == "c" and p[1:2] != "" for p in str(y[1][-1]).split(":")[1:])):
        y = y[1]
    return ("each", y[1]) if y[0] in ("sel", "elem", "key") else x


def overwritten(t):
    """A loop that fills the whole of an array with what it computes for its own element: only the last one remains."""
    _, label, var, init, body = t
    if body[0] != "store" or body[1] != ("mu", label, var):
        return False
    ks = body[2][1:] if body[2][0] == "tuple" else (body[2],)
    whole = all(x in (("slice", NONE, NONE, NONE), ("k", Ellipsis)) for x in ks)
    return whole and any((y[:1] == ("elem",) and len(y) > 2 and y[2] == label) or y[:2] == ("ix", label) for y in subterms(body[3]))


def map_loop(t):
    """A loop that only stores, in its own element, a value that does not depend on earlier iterations: that value, elementwise."""
    _, label, var, init, body = t
    mu = ("mu", label, var)

    def leaf(x):
        if x == mu:
            return init
        if x[0] == "ite" and mu not in subterms(x[1]):
            a, b = leaf(x[2]), leaf(x[3])
            return None if a is None or b is None else ("ite", x[1], a, b)
        row = x[0] == "store" and x[2][0] == "tuple" and len(x[2]) > 2 and x[2][1][:2] == ("ix", label) and all(y == ("slice", NONE, NONE, NONE) for y in x[2][2:])
        if x[0] == "store" and x[1] == mu and (row or x[2][:2] == ("ix", label)) and not any(y and y[0] == "mu" and y[1] == label for y in subterms(x[3])):
            return x[3]
        return None

    if body == mu:
        return None
    r = leaf(body)
    return r


def seq_core(t):
    """The sequence behind list(...)-like copies."""
    while (t[0] == "call" and t[1] in ("list", "tuple", "numpy.asarray", "numpy.array") and len(t) == 3) or (t[0] == "mcall" and t[1] in ("tolist", "copy") and len(t) == 3):
        t = t[2] if t[0] == "call" else t[2]
    return t


def join_seq(parts, strip):
    out = []
    for x in parts:
        x = seq_core(x)
        for y in x[1:] if x[0] == "cat" else [x]:
            if y == ("list",):
                continue
            if y[0] == "list" and out and out[-1][0] == "list":
                for z in y[1:]:     # of two successive stores under one key the second one counts
                    same = z[:1] == ("pair",) and len(out[-1]) > 1 and out[-1][-1][:2] == z[:2]
                    out[-1] = (out[-1][:-1] if same else out[-1]) + (z,)
            else:
                out.append(y)
    return out[0] if len(out) == 1 else ("cat", *out) if out else ("list",)


def unit(c):
    """A conjunction whose clauses are shortened by the facts it already states."""
    if c[0] != "and":
        return c
    lits = list(c[1:])
    out = []
    for x in lits:
        y = x[1] if x[0] == "not" and x[1][0] == "and" else None
        if y is not None:
            rest = [z for z in y[1:] if not any(z == l or (z[0] == "truth" and l[0] == "truth" and core(z) == core(l)) for l in lits if l is not x)]
            x = t_not(t_and(rest)) if len(rest) < len(y) - 1 else x
        elif x[0] == "or":
            rest = [z for z in x[1:] if not any(z == t_not(l) for l in lits if l is not x)]
            x = t_or(rest) if len(rest) < len(x) - 1 else x
        out.append(x)
    return t_and(sorted(out, key=repr)) if out != lits else c


def core(x):
    while x[0] == "truth":
        x = x[1]
    return x


def flat_one(x, strip):
    """The element a loop appends each time, possibly only under a condition."""
    if x[0] == "list" and len(x) == 2:
        return x[1]
    if x[0] != "ite":
        return None
    c = x[1] if is_pred(x[1]) or x[1][0] == "truth" else ("truth", x[1])
    a, b = (None if y == ("list",) else flat_one(y, strip) for y in x[2:])
    if x[3] == ("list",) and a is not None:
        return ("filter", a[1], unit(t_and([c, a[2]]))) if a[0] == "filter" else ("filter", a, c)
    if x[2] == ("list",) and b is not None:
        return ("filter", b[1], unit(t_and([t_not(c), b[2]]))) if b[0] == "filter" else ("filter", b, t_not(c))
    return None if a is None or b is None else t_ite(x[1], a, b)


def flat_seq(x, strip):
    x = seq_core(x)
    if x[0] == "flat" or x == ("list",):
        return x
    if (x[0] == "list" and len(x) == 2) or x[0] == "ite":
        y = flat_one(x, strip)
        if y is not None:
            return y if strip else ("bag", y)
    return ("flat", x)


def cat_loop(t):
    """A loop that only appends to its own sequence: the sequence followed by what the iterations append."""
    _, label, var, init, body = t
    if not str(var).endswith(".#"):
        return None
    mu = ("mu", label, var)

    def inc(x):
        if x == mu:
            return ("list",)
        if x[0] == "cat":
            a = inc(x[1])
            return None if a is None or any(mu in subterms(y) for y in x[2:]) else ("cat", a, *x[2:])
        if x[0] == "ite" and mu not in subterms(x[1]):
            a, b = inc(x[2]), inc(x[3])
            return None if a is None or b is None else ("ite", x[1], a, b)
        if x[0] == "loop" and len(x) == 5 and mu not in subterms(x[4]):
            a = inc(x[3])
            return None if a is None else ("cat", a, (*x[:3], ("list",), x[4]))
        return None

    r = inc(body)
    return None if r is None or any(y and y[0] == "mu" and y[1] == label for y in subterms(r)) else ("cat", init, ("flat", r))


def canon_loop(t):
    """Alpha-rename an accumulation loop and the accumulators it depends on (label by nesting height; several accumulators are told apart by what they hold)."""
    _, label, var, init, body, *accs = t
    used, todo = {var}, [body]
    byname = {a[1]: a for a in accs}
    done = set()
    h = 0
    while todo:
        for x in subterms(todo.pop()):
            if x and x[0] == "mu" and x[1] == label and x[2] not in used:
                used.add(x[2])
                if x[2] not in byname:
                    return t
                if x[2] not in done:
                    done.add(x[2])
                    todo.append(byname[x[2]][3])
            if x and x[0] == "loop":
                if not str(x[1]).startswith("#"):
                    return t
                h = max(h, int(x[1][1:].split(":")[0]))
    accs = [a for a in accs if a[1] in used]
    new = f"#{h + 1}"
    names = {var: "v0", **({accs[0][1]: "v1"} if accs else {})}
    if len(accs) > 1:
        # numbered by the coarsest features that tell them apart; what the numbering depends on is part of the label
        levels = [lambda a: (kind_of(a[1]), *sorted({str(y[0]) for y in subterms(a[2]) if y})), lambda a: sorted(leaf_names(a[3]))]
        if len(accs) > 8:
            return t
        full = None
        key = {a[1]: () for a in accs}
        for lv in (*levels, None):
            count = {}
            for k in key.values():
                count[k] = count.get(k, 0) + 1
            tied = [a for a in accs if count[key[a[1]]] > 1] if lv is not levels[0] else accs
            if tied and lv is None:
                full = colours(label, var, accs)
            for a in tied:
                key[a[1]] += (stable_hash(lv(a)) if lv is not None else full[a[1]],)
        if len(set(key.values())) < len(accs):
            return t
        accs = sorted(accs, key=lambda a: key[a[1]])
        names = {var: "v0", **{a[1]: f"v{i + 1}" for i, a in enumerate(accs)}}
        new += ":%d:%08x" % (len(accs), stable_hash(tuple(sorted(key.values()))))
    ends = loop_ends(body)
    if ends:
        new += ("" if ":" in new else ":1:") + "%08x" % stable_hash(tuple(sorted(ends)))
    memo = {}

    def ren(x):
        if not isinstance(x, tuple) or not x:
            return x
        if x not in memo:
            memo[x] = ("mu", new, names[x[2]]) if x[0] == "mu" and x[1] == label else tuple(ren(y) if isinstance(y, tuple) else y for y in x)
        return memo[x]

    return ("loop", new, "v0", init, ren(body), *[("acc", names[a[1]], a[2], ren(a[3])) for a in accs])


def kind_of(var):
    return next((k for k in (".@.#", ".#", ".*") if str(var).endswith(k)), "")


def leaf_names(x):
    """Heads and callees of the values an accumulator takes, whatever the conditions under which it takes them."""
    out, todo = set(), [x]
    while todo:
        x = todo.pop()
        if not x:
            continue
        if x[0] == "ite":
            todo += [y for y in x[2:] if isinstance(y, tuple)]
            continue
        if x[0] == "mu":
            continue
        out.add(str(x[:2] if x[0] in ("call", "mcall", "k") and not isinstance(x[1], tuple) else x[0]))
        todo += [y for y in x[1:] if isinstance(y, tuple)]
    return out


def loop_ends(body):
    """The kinds of comparison that end a loop: loops that end by different kinds of test are not compared with each other."""
    out = set()
    for x in subterms(body):
        if x and x[0] == "ite" and len(x) == 4 and any(y in (("x", "loop end"), ("x", "loop left")) for y in x[2:]):
            for y in subterms(x[1]):
                if y and y[0] == "cmp":
                    out.add({"<": ">", "<=": ">=", "!=": "=="}.get(y[1], str(y[1])))
                elif y and y[0] in ("truth", "call", "mcall"):
                    out.add(str(y[:2] if y[0] == "call" else y[0]))
    return out


def stable_hash(x):
    return zlib.crc32(repr(x).encode())


def colours(label, var, accs):
    """Tell accumulators apart by their content, whatever they are called and whatever the order of commutative operands."""
    col = {var: 1, **{a[1]: 0 for a in accs}}

    def colour(x, memo):
        if not isinstance(x, tuple):
            return stable_hash(x)
        if x not in memo:
            if x and x[0] == "mu" and x[1] == label:
                memo[x] = stable_hash(("mu", col.get(x[2])))
            else:
                cs = [colour(y, memo) for y in x]
                memo[x] = stable_hash((cs[0], sorted(cs[1:])) if x and x[0] in ("and", "or", "bin", "cmp") else cs)
        return memo[x]

    for _ in range(3):
        memo = {}
        col.update({a[1]: stable_hash((colour(a[2], memo), colour(a[3], memo))) for a in accs})
    del col[var]
    return col


def canon_lam(t):
    """Number the bound symbols of a function term by nesting height."""
    _, n, uid, body = t
    h = 1 + max([x[2] for x in subterms(body) if x and x[0] == "lam"], default=0)
    names = {f"${uid}.{i}": f"$h{h}.{i}" for i in range(n)}
    memo = {}

    def ren(x):
        if not isinstance(x, tuple) or not x:
            return x
        if x not in memo:
            memo[x] = ("s", names[x[1]]) if x[0] == "s" and x[1] in names else tuple(ren(y) if isinstance(y, tuple) else y for y in x)
        return memo[x]

    return ("lam", n, h, ren(body), "c")


def canon_ix(t):
    """Name a loop index by what it runs over; a single one needs no distinction."""
    labels = {x[1] for x in subterms(t) if x and x[0] == "ix"}
    if not labels or "I" in labels:
        return t
    one = len(labels) == 1
    memo = {}

    def ren(x):
        if not isinstance(x, tuple) or not x:
            return x
        if x not in memo:
            memo[x] = ("ix", "I", *([] if one else [ren(y) for y in x[2:]])) if x[0] == "ix" else tuple(ren(y) if isinstance(y, tuple) else y for y in x)
        return memo[x]

    return ren(t)


def canon_mu(t):
    """Name the running value of an enclosing loop; several are told apart by where they occur (and then only compared with a term of the very same form)."""
    free = {x for x in subterms(t) if x and x[0] == "mu" and not str(x[1]).startswith("#")}
    if not free or len(free) > 6:
        return t
    if len(free) == 1:
        names = {m: ("mu", "#0", "free") for m in free}
    else:
        def context(m):
            return stable_hash(rename(t, {x: ("mu", "this" if x == m else "other") for x in free}, True))

        cols = {m: context(m) for m in free}
        if len(set(cols.values())) < len(free):
            return t
        names = {m: ("mu", "#0:several", f"v{i}") for i, m in enumerate(sorted(free, key=cols.get))}
    return rename(t, names)


def rename(t, names, ordered=False):
    memo = {}

    def ren(x):
        if not isinstance(x, tuple) or not x:
            return x
        if x not in memo:
            r = names.get(x)
            if r is None:
                r = tuple(ren(y) if isinstance(y, tuple) else y for y in x)
                if ordered and x[0] in ("and", "or", "bin", "cmp"):
                    r = (r[0], *sorted(map(repr, r[1:])))
            memo[x] = r
        return memo[x]

    return ren(t)


def subterms(t):
    st = [t]
    while st:
        x = st.pop()
        if isinstance(x, tuple):
            yield x
            st.extend(y for y in x[1:] if isinstance(y, tuple))


def shape(x):
    return (x[0], x[1] if isinstance(x[1], str) else "<dyn>", tuple(("kw", y[1]) if isinstance(y, tuple) and y and y[0] == "kw" else "p" for y in x[2:]))


COMPARABLE = ("loop", "mu", "store", "setorder", "cat", "flat", "rep", "filter")


def ok_heads(spec):
    """Structured heads a reference uses itself may be compared; otherwise they count as uninterpreted."""
    hs = {x[0] for x in subterms(spec) if x and x[0] in COMPARABLE}
    hs |= {x for x in subterms(spec) if x and x[0] == "ix"}
    hs |= {("label", x[1]) for x in subterms(spec) if x and x[0] == "loop" and ":" in str(x[1])}
    return hs | {"mu"} if "loop" in hs else hs


def known_fn(n, ok):
    if n in KNOWN_FUNCS or n in ok or n.startswith("cast:"):
        return True
    b, _, ax = n.partition("@")
    return bool(ax) and not ax.startswith("?") and (b in KNOWN_FUNCS or b in ok)


def opaque_parts(t, ok_funcs=(), ok_shapes=(), heads=()):
    """Parts of a term the theory cannot interpret (tops, loops, unknown calls)."""
    out = []
    lib = {s[1] for s in ok_shapes if s[1] in SIGS} | {"." + s[1] for s in ok_shapes if s[0] == "mcall" and "." + str(s[1]) in SIGS}
    for x in subterms(t):
        if x and x[0] == "call" and x[1] in SIGS:
            if x[1] in lib and bound(x):
                continue
            ax = [y[2] for y in x[2:] if y[:2] == ("kw", "axis")]
            if ax and not (ax[0][0] == "k" and isinstance(ax[0][1], (int, float)) and ax[0][1] >= 0):
                out.append(x)       # an axis counted from the end may be the same one
                continue
        if x and x[0] == "mcall" and "." + str(x[1]) in lib and bound(("call", "." + x[1], *[y for y in x[3:] if y[:2] != ("kw", "draw#")])):
            continue
        if x and x[0] in ("call", "mcall") and ok_shapes and shape(x) in ok_shapes:
            continue
        if x and x[0] == "s" and isinstance(x[1], str) and x[1].startswith("<"):
            out.append(x)
            continue
        if x and x[0] in heads and (x[0] not in ("loop", "mu") or (str(x[1]).startswith("#") and (":" not in str(x[1]) or ("label", x[1]) in heads))):
            continue
        if x and x[0] == "ix":
            if x[1] != "I" or (x not in heads and (len(x) > 2 or any(isinstance(y, tuple) and len(y) > 2 for y in heads))):
                out.append(x)
            continue
        if x and x[0] in ("top", "loop", "mu", "uninit", "store", "unb", "setorder", "cat", "flat", "rep"):
            out.append(x)
        elif x and x[0] == "call" and isinstance(x[1], str) and not known_fn(x[1], ok_funcs) and not x[1].startswith("fn:"):
            out.append(x)
        elif x and x[0] in ("call",) and not isinstance(x[1], str):
            out.append(x)
        elif x and x[0] == "mcall" and x[1] not in ok_funcs:
            out.append(x)
    return out


# ------------------------------------------------------------------ polynomials
def inner_gate(t):
    """Condition of a conditional buried in arithmetic."""
    if t[0] == "ite":
        return t[1]
    if t[0] == "bin":
        return inner_gate(t[2]) or inner_gate(t[3])
    return None


def pick(t, g, i):
    """Take branch i of every conditional on g."""
    if not isinstance(t, tuple) or not t:
        return t
    if t[0] == "ite" and t[1] == g:
        return pick(t[i], g, i)
    return tuple(pick(x, g, i) if isinstance(x, tuple) else x for x in t)


def as_bool(t):
    """A conditional between True and False read as a condition."""
    if t[0] == "k" and t[1] in (0, 1):
        return TRUE if t[1] else FALSE
    if t[0] == "ite":
        x, y = as_bool(t[2]), as_bool(t[3])
        if (is_pred(x) or x in (TRUE, FALSE)) and (is_pred(y) or y in (TRUE, FALSE)):
            return t_or([t_and([t[1], x]), t_and([t_not(t[1]), y])])
    return t


class Norm:
    def __init__(self, sub=None, strip=True, rw=None):
        self.sub, self.strip, self.rw = sub, strip, rw
        self.atoms = []          # id -> key
        self.atom_ix = {}
        self.polys = []          # interned polynomials
        self.assume = {}         # atomic predicate -> bool
        self.decide = None

    # atoms ------------------------------------------------------
    def atom(self, key):
        i = self.atom_ix.get(key)
        if i is None:
            i = len(self.atoms)
            self.atoms.append(key)
            self.atom_ix[key] = i
        return i

    def intern(self, p):
        for i, q in enumerate(self.polys):
            if q == p:
                return i
        for i, q in enumerate(self.polys):
            if self.is_zero(self.add(p, self.scale(q, -F1))):
                return i
        self.polys.append(p)
        return len(self.polys) - 1

    # poly ops -----------------------------------------------------
    @staticmethod
    def kpoly(c):
        return {} if c == 0 else {(): Fraction(c)}

    @staticmethod
    def add(a, b):
        r = dict(a)
        for m, c in b.items():
            v = r.get(m, 0) + c
            if v == 0:
                r.pop(m, None)
            else:
                r[m] = v
        return r

    @staticmethod
    def scale(a, c):
        return {m: v * c for m, v in a.items()} if c else {}

    def mul(self, a, b):
        if len(a) * len(b) > 4000:
            raise Unknown("polynomial too large")
        r = {}
        for m1, c1 in a.items():
            for m2, c2 in b.items():
                for m, c in self.mmul(m1, m2, c1 * c2).items():
                    v = r.get(m, 0) + c
                    if v == 0:
                        r.pop(m, None)
                    else:
                        r[m] = v
        return r

    def mmul(self, m1, m2, c):
        d = dict(m1)
        for a, e in m2:
            d[a] = d.get(a, 0) + e
        return self.fix_mono(d, c)

    def fix_mono(self, d, c):
        """Canonicalise a monomial: drop zero exponents, fold constant powers, expand whole powers of poly atoms."""
        extra = []
        for a in list(d):
            e = d[a]
            if e == 0:
                del d[a]
                continue
            key = self.atoms[a]
            if key[0] == "E" and key[2] == () and isinstance(key[1], Fraction):
                n = e.numerator // e.denominator
                if n:
                    if abs(n) > 400:
                        raise Unknown("huge power")
                    c = c * key[1] ** n
                    if e - n == 0:
                        del d[a]
                    else:
                        d[a] = e - n
            elif key[0] == "P" and e > 0 and e.numerator // e.denominator >= 1:
                n = e.numerator // e.denominator
                if n <= 4:
                    extra.append((key[1], n))
                    if e - n == 0:
                        del d[a]
                    else:
                        d[a] = e - n
        r = {tuple(sorted(d.items())): c}
        for pid, n in extra:
            for _ in range(n):
                r = self.mul(r, self.polys[pid])
        return r

    def is_zero(self, p):
        for _ in range(8):
            if not p:
                return True
            neg = {}
            for m in p:
                for a, e in m:
                    if self.atoms[a][0] == "P" and e < 0:
                        neg[a] = min(neg.get(a, Fraction(0)), e)
            if not neg:
                return False
            for a, e in neg.items():
                k = -(e.numerator // e.denominator)  # ceil(-e)
                k = -e if e.denominator == 1 else Fraction(k)
                r = {}
                for m, c in p.items():
                    d = dict(m)
                    d[a] = d.get(a, 0) + k
                    r = self.add(r, self.fix_mono(d, c))
                p = r
        return not p

    def inv(self, p):
        return self.power(p, Fraction(-1))

    def power(self, p, e):
        """p ** e for a rational e."""
        if e == 0:
            return self.kpoly(1)
        if not p:
            if e > 0:
                return {}
            return {((self.atom(("inf", "1/0")), F1),): F1}
        if len(p) == 1:
            (m, c), = p.items()
            d = {a: x * e for a, x in m}
            return self.mul(self.cpow(c, e), self.fix_mono(d, F1))
        if e.denominator == 1 and 0 < e <= 4:
            r = p
            for _ in range(int(e) - 1):
                r = self.mul(r, p)
            return r
        # factor the leading coefficient and common monomial
        mins = None
        for m in p:
            d = dict(m)
            mins = dict(d) if mins is None else {a: min(mins[a], d[a]) for a in mins if a in d}
        neg = {}
        for m in p:
            for a, x in m:
                if x < 0:
                    neg[a] = min(neg.get(a, 0), x)
        mins = dict(mins or {})
        for a, x in neg.items():
            mins[a] = min(mins.get(a, x), x)
        q = p
        if mins:
            q = {}
            for m, c in p.items():
                d = dict(m)
                for a, x in mins.items():
                    d[a] = d.get(a, 0) - x
                q = self.add(q, self.fix_mono(d, c))
        lead = q[min(q)]
        s = abs(lead) if e.denominator != 1 else lead
        q = self.scale(q, 1 / s)
        pid = self.intern(q)
        a = self.atom(("P", pid))
        r = self.mul(self.cpow(s, e), self.fix_mono({a: e}, F1))
        if mins:
            r = self.mul(r, self.fix_mono({k: v * e for k, v in mins.items()}, F1))
        return r

    def cpow(self, c, e):
        if e.denominator == 1:
            if abs(e) > 400:
                raise Unknown("huge power")
            return self.kpoly(c ** int(e))
        if c == 1:
            return self.kpoly(1)
        if c < 0:
            raise Unknown("fractional power of a negative number")
        # perfect powers
        n, d = c.numerator, c.denominator
        k = e.denominator
        rn, rd = round(n ** (1.0 / k)) if n < 10**15 else 0, round(d ** (1.0 / k)) if d < 10**15 else 0
        if rn**k == n and rd**k == d and rn:
            return self.kpoly(Fraction(rn, rd) ** e.numerator)
        a = self.atom(("E", c, ()))
        return self.fix_mono({a: e}, F1)

    def gpow(self, p, q):
        """p ** q with a symbolic exponent polynomial q."""
        if set(q) <= {()}:
            return self.power(p, q.get((), Fraction(0)))
        if len(p) == 1:
            (m, c), = p.items()
            r = self.kpoly(1)
            if c != 1:
                if c < 0:
                    raise Unknown("symbolic power of a negative number")
                for qm, qc in q.items():
                    if qm == ():
                        r = self.mul(r, self.cpow(c, qc))
                    else:
                        r = self.mul(r, {((self.atom(("E", c, qm)), qc),): F1})
            for a, x in m:
                for qm, qc in q.items():
                    if qm == ():
                        r = self.mul(r, self.fix_mono({a: x * qc}, F1))
                    else:
                        r = self.mul(r, {((self.atom(("E", ("a", a), qm)), x * qc),): F1})
            return r
        a = self.atom(("P", self.intern(p)))
        r = self.kpoly(1)
        for qm, qc in q.items():
            if qm == ():
                r = self.mul(r, self.fix_mono({a: qc}, F1))
            else:
                r = self.mul(r, {((self.atom(("E", ("a", a), qm)), qc),): F1})
        return r

    def exp(self, q):
        r = self.kpoly(1)
        for qm, qc in q.items():
            r = self.mul(r, {((self.atom(("E", "e", qm)), qc),): F1})
        return r

    def log(self, p):
        """Natural log: expand over single monomials."""
        if len(p) == 1:
            (m, c), = p.items()
            if c > 0:
                r = {}
                if c != 1:
                    r = self.logk(c)
                for a, x in m:
                    k = self.atoms[a]
                    if k[0] == "E":
                        base = {} if k[1] == "e" else (self.logk(k[1]) if isinstance(k[1], Fraction) else {((self.atom(("ln", k[1])), F1),): F1})
                        if k[1] == "e":
                            base = self.kpoly(1)
                        r = self.add(r, self.scale(self.mul(base, {k[2]: F1}), x))
                    else:
                        r = self.add(r, {((self.atom(("ln", ("a", a))), F1),): x})
                return r
        return {((self.atom(("ln", self.intern(p))), F1),): F1}

    def logk(self, c):
        # log of a positive rational as a sum over prime factors, so log(100) == 2 log(10)
        r = {}
        for n, sgn in ((c.numerator, 1), (c.denominator, -1)):
            f = 2
            while n > 1 and f < 2000:
                while n % f == 0:
                    r = self.add(r, {((self.atom(("ln", Fraction(f))), F1),): Fraction(sgn)})
                    n //= f
                f += 1
            if n > 1:
                r = self.add(r, {((self.atom(("ln", Fraction(n))), F1),): Fraction(sgn)})
        return r

    # terms --------------------------------------------------------
    def poly(self, t):
        h = t[0]
        if h == "k":
            c = t[1]
            if isinstance(c, bool):
                return self.kpoly(int(c))
            if isinstance(c, int):
                return self.kpoly(c)
            if isinstance(c, float):
                if c != c or c in (float("inf"), float("-inf")):
                    return {((self.atom(("inf", str(abs(c)))), F1),): Fraction(-1 if c < 0 else 1)}
                return self.kpoly(Fraction(repr(c)))
            return {((self.atom(("k", repr(c))), F1),): F1}
        if h == "bin":
            op = t[1]
            if op in ("+", "-"):
                return self.add(self.poly(t[2]), self.scale(self.poly(t[3]), F1 if op == "+" else -F1))
            if op == "*":
                return self.mul(self.poly(t[2]), self.poly(t[3]))
            if op == "/":
                return self.mul(self.poly(t[2]), self.inv(self.poly(t[3])))
            if op == "**":
                return self.gpow(self.poly(t[2]), self.poly(t[3]))
        if h == "ite":
            d = self.truth(t[1])
            if d is True:
                return self.poly(t[2])
            if d is False:
                return self.poly(t[3])
            a, b = self.poly(t[2]), self.poly(t[3])
            if self.is_zero(self.add(a, self.scale(b, -F1))):
                return a
            raise Unknown("undecided gate " + show(t[1])[:80])
        if is_pred(t) and t[0] != "call":
            d = self.truth(t)
            if d is None:
                raise Unknown("undecided predicate")
            return self.kpoly(1 if d else 0)
        if h == "call" and isinstance(t[1], str):
            n = t[1]
            if n == "numpy.sqrt" and len(t) == 3:
                return self.power(self.poly(t[2]), Fraction(1, 2))
            if n == "numpy.exp" and len(t) == 3:
                return self.exp(self.poly(t[2]))
            if n == "numpy.log" and len(t) == 3:
                return self.log(self.poly(t[2]))
            if n == "numpy.log10" and len(t) == 3:
                return self.mul(self.log(self.poly(t[2])), self.inv(self.logk(Fraction(10))))
            if n in ("numpy.sin", "numpy.cos") and len(t) == 3:
                p = self.poly(t[2])
                neg = p and p[min(p)] < 0
                q = self.scale(p, -F1) if neg else p
                a = {((self.atom((n, self.intern(q))), F1),): F1}
                return self.scale(a, -F1) if neg and n.endswith("sin") else a
        return {((self.atom(self.key(t)), F1),): F1}

    @staticmethod
    def _junct(h, ks):
        out = set()
        for k in ks:
            if isinstance(k, tuple) and len(k) == 2 and k[0] == h:
                out.update(k[1])
            else:
                out.add(k)
        return (h, tuple(sorted(out, key=repr)))

    def key(self, t):
        """Hashable canonical key of a non-arithmetic term."""
        h = t[0]
        if h in ("s", "x", "top", "uninit"):
            return t
        if h == "k":
            return ("k", repr(t[1]))
        if h == "not" and t[1][0] in ("and", "or"):
            return self.key(("or" if t[1][0] == "and" else "and", *[t_not(x) for x in t[1][1:]]))
        if h in ("and", "or"):
            return self._junct(h, [self.ckey(x) for x in t[1:]])
        if h == "cmp" or h == "not" and t[1][0] == "cmp":
            try:
                return ("pred", self.pkey(t))
            except Unknown:
                pass
        out = [h]
        for x in t[1:]:
            out.append(self.ckey(x) if isinstance(x, tuple) else x)
        if h == "call" and t[1] in ("numpy.min", "numpy.max") and len(t) > 3:
            out[2:] = sorted(out[2:], key=repr)
        return tuple(out)

    def ckey(self, t):
        if not isinstance(t, tuple) or not t:
            return t
        if t[0] == "ite":
            t = self.reduce(t)
        if t[0] in ("bin", "ite") or (t[0] == "k" and isinstance(t[1], (int, float)) and not isinstance(t[1], bool)) or (
                t[0] == "call" and t[1] in ("numpy.sqrt", "numpy.exp", "numpy.log", "numpy.log10", "numpy.sin", "numpy.cos")):
            try:
                p = self.poly(t)
                if len(p) == 1:
                    (m, c), = p.items()
                    if c == 1 and len(m) == 1 and m[0][1] == 1 and self.atoms[m[0][0]][0] not in ("P", "E", "ln", "inf"):
                        return self.atoms[m[0][0]]
                return ("p", self.intern(p))
            except Unknown:
                if t[0] == "ite":
                    return ("ite", self.ckey(t[1]), self.ckey(t[2]), self.ckey(t[3]))
                return ("raw", t[0], *[self.ckey(x) if isinstance(x, tuple) else x for x in t[1:]])
        return self.key(t)

    # predicates ---------------------------------------------------
    def expand(self, p):
        """Rewrites of quantified / compound atoms into simpler predicates (None = already atomic)."""
        if p[0] == "truth" and (is_pred(p[1]) or p[1][0] == "truth"):
            return p[1]
        if p[0] == "truth" and p[1][0] in ("boolop",):
            return t_and(list(p[1][2:])) if p[1][1] == "and" else t_or(list(p[1][2:]))
        if p[0] == "truth" and p[1][0] == "ite":
            return ("ite", p[1][1], self._aspred(p[1][2]), self._aspred(p[1][3]))
        if p[0] == "truth" and p[1][0] == "call" and p[1][1] in ("numpy.any", "numpy.all") and len(p[1]) >= 3:
            return p[1]
        if p[0] == "truth" and p[1][0] == "call" and p[1][1] == "len" and len(p[1]) == 3:
            return ("cmp", ">", p[1], ("k", 0))
        if p[0] == "call" and p[1] == "numpy.all" and len(p) >= 3 and (is_pred(p[2]) or p[2][0] == "truth"):
            return t_not(("call", "numpy.any", t_not(p[2])))
        if p[0] == "call" and p[1] == "numpy.any" and len(p) >= 3 and p[2][0] == "or":
            return t_or([("call", "numpy.any", x) for x in p[2][1:]])
        if p[0] == "cmp" and p[1] in ("<", "<=", ">", ">=", "==", "!="):
            for i in (2, 3):
                if p[i][0] == "ite":
                    a, b = list(p), list(p)
                    a[i], b[i] = p[i][2], p[i][3]
                    return ("ite", p[i][1], tuple(a), tuple(b))
        if p[0] == "cmp" and p[1] in ("<", "<=", ">", ">=") and p[2] == p[3] and p[2][0] == "call" and p[2][1] in ("numpy.min", "numpy.max"):
            return TRUE if p[1] in ("<=", ">=") else FALSE
        if p[0] == "cmp" and p[1] in ("<", "<=", ">", ">=") and all(x[0] == "call" and x[1] in ("numpy.min", "numpy.max") and len(x) == 3 for x in p[2:4]) and repr(p[2]) > repr(p[3]):
            return ("cmp", {"<": ">", "<=": ">=", ">": "<", ">=": "<="}[p[1]], p[3], p[2])
        if p[0] == "cmp" and p[1] in ("<", "<=", ">", ">=") and p[2][0] == "call" and p[2][1] in ("numpy.min", "numpy.max") and len(p[2]) == 3:
            return self._quant(p[1], p[2], p[3])
        if p[0] == "cmp" and p[1] in ("<", "<=", ">", ">=") and p[3][0] == "call" and p[3][1] in ("numpy.min", "numpy.max") and len(p[3]) == 3:
            flip = {"<": ">", "<=": ">=", ">": "<", ">=": "<="}[p[1]]
            return self._quant(flip, p[3], p[2])
        if p[0] == "cmp" and p[1] in ("in", "notin") and p[3][0] in ("tuple", "list", "set"):
            r = t_or([("cmp", "==", p[2], x) for x in p[3][1:]])
            return r if p[1] == "in" else t_not(r)
        if p[0] == "cmp" and p[1] in ("<", "<=", ">", ">=", "==", "!="):
            g = inner_gate(p[2]) or inner_gate(p[3])
            if g is not None:
                return ("ite", g, pick(p, g, 2), pick(p, g, 3))
        if p[0] == "cmp" and p[1] in ("notin", "isnot"):
            return t_not(("cmp", "in" if p[1] == "notin" else "is", p[2], p[3])) if False else None
        return None

    def _aspred(self, t):
        return t if is_pred(t) or t[0] == "truth" else ("truth", t)

    def _quant(self, op, m, c):
        # max(x) > c  <=>  any(x > c);  max(x) <= c <=> not any(x > c);  min(x) < c <=> any(x < c)
        x = m[2]
        if m[1] == "numpy.max":
            if op in (">", ">="):
                return ("call", "numpy.any", ("cmp", op, x, c))
            return ("not", ("call", "numpy.any", ("cmp", ">" if op == "<=" else ">=", x, c)))
        if op in ("<", "<="):
            return ("call", "numpy.any", ("cmp", op, x, c))
        return ("not", ("call", "numpy.any", ("cmp", "<" if op == ">=" else "<=", x, c)))

    def lit(self, p):
        """(atom, fn) where fn(value of atom) -> bool."""
        if p[0] == "cmp":
            op = p[1]
            if op in ("is", "isnot") and p[2] == p[3]:
                return ("const", op == "is"), (lambda v, r=op == "is": r)
            if op in ("is", "isnot"):
                return ("b", ("is", self.ckey(p[2]), self.ckey(p[3]))), (lambda v: v) if op == "is" else (lambda v: not v)
            if op in ("in", "notin"):
                return ("b", ("in", self.ckey(p[2]), self.ckey(p[3]))), (lambda v: v) if op == "in" else (lambda v: not v)
            a, b = p[2], p[3]
            if op in ("==", "!=") and a[0] == "k" and b[0] == "k":
                r = (a[1] == b[1]) == (op == "==")
                return ("const", r), (lambda v, r=r: r)
            for x, y in ((a, b), (b, a)):
                if y[0] == "k" and (isinstance(y[1], (str, bool)) or y[1] is None):
                    c = y[1]
                    f = (lambda v, c=c: v == c)
                    return ("eq", self.ckey(x), c), (f if op == "==" else (lambda v, c=c: v != c))
            # linear form
            d = self.add(self.poly(a), self.scale(self.poly(b), -F1))
            c0 = d.pop((), Fraction(0))
            if not d:
                val = {"<": c0 < 0, "<=": c0 <= 0, ">": c0 > 0, ">=": c0 >= 0, "==": c0 == 0, "!=": c0 != 0}[op]
                return ("const", val), (lambda v, val=val: val)
            lead = d[min(d)]
            d = self.scale(d, 1 / lead)
            thr = -c0 / lead
            if lead < 0:
                op = {"<": ">", "<=": ">=", ">": "<", ">=": "<=", "==": "==", "!=": "!="}[op]
            if op not in ("==", "!=") or thr.denominator == 1:
                lo = self.count_min(d)
                if lo is not None:
                    r = self.count_cmp(op, thr, lo)
                    if isinstance(r, bool):
                        return ("const", r), (lambda v, r=r: r)
                    op, thr = r
            fid = self.intern(d)
            f = {"<": lambda v: v < thr, "<=": lambda v: v <= thr, ">": lambda v: v > thr, ">=": lambda v: v >= thr, "==": lambda v: v == thr, "!=": lambda v: v != thr}[op]
            return ("lin", fid, thr), f
        if p[0] == "call" and p[1] == "numpy.any" and len(p) >= 3 and p[2][0] in ("cmp", "not", "and"):
            try:
                q = p[2]
                neg = False
                if q[0] == "not":
                    q, neg = q[1], True
                if q[0] == "cmp" and q[1] in ("<", "<=", ">", ">=", "==", "!="):
                    op = q[1]
                    if neg:
                        op = {"<": ">=", "<=": ">", ">": "<=", ">=": "<", "==": "!=", "!=": "=="}[op]
                    (k, *r), _ = self.lit(("cmp", op, q[2], q[3]))
                    if k == "lin":
                        lead_flip = self._flip(q[2], q[3])
                        op2 = {"<": ">", "<=": ">=", ">": "<", ">=": "<=", "==": "==", "!=": "!="}[op] if lead_flip else op
                        return ("b", ("any", op2, r[0], r[1])), (lambda v: v)
            except Unknown:
                pass
            return ("b", ("any", self.pkey(p[2]))), (lambda v: v)
        if p == ("truth", NONE) or p[0] == "call" and p[1] in ("callable", "isinstance") and len(p) > 2 and p[2] == NONE:
            return ("const", False), (lambda v: False)
        if p[0] == "truth":
            return ("b", ("truth", self.ckey(p[1]))), (lambda v: v)
        return ("b", self.key(p)), (lambda v: v)

    def count_min(self, d):
        """Least value of a linear form that is one count (length, number of samples), else None."""
        if len(d) == 1:
            (m, c), = d.items()
            if c == 1 and len(m) == 1 and m[0][1] == 1:
                a = self.atoms[m[0][0]]
                if a[0] == "call" and a[1] == "len":
                    return 0
                if a[0] == "attr" and a[2] == "num_samples" and a[1] == ("s", "graph_state"):
                    return 1
        return None

    @staticmethod
    def count_cmp(op, thr, lo):
        """A comparison of a count >= lo in the form <=, >, ==, != (bool when it is constant)."""
        fl = thr.numerator // thr.denominator
        if op == "<":
            op, fl = "<=", (fl - 1 if thr == fl else fl)
        elif op == ">=":
            op, fl = ">", (fl - 1 if thr == fl else fl)
        elif op in ("==", "!=") and fl == lo:
            op = "<=" if op == "==" else ">"
        if fl < lo:
            return {"<=": False, ">": True, "==": False, "!=": True}[op]
        return op, Fraction(fl)

    def _flip(self, a, b):
        d = self.add(self.poly(a), self.scale(self.poly(b), -F1))
        d.pop((), None)
        return bool(d) and d[min(d)] < 0

    def pkey(self, p):
        """Structural canonical key of a predicate."""
        if p in (TRUE, FALSE):
            return p
        if p[0] in ("and", "or"):
            return self._junct(p[0], [self.pkey(x) for x in p[1:]])
        if p[0] == "not":
            q = p[1]
            if q[0] == "cmp" and q[1] in ("<", "<=", ">", ">=", "==", "!="):
                neg = {"<": ">=", ">=": "<", ">": "<=", "<=": ">", "==": "!=", "!=": "=="}[q[1]]
                return self.pkey(("cmp", neg, q[2], q[3]))
            if q[0] in ("and", "or"):
                return self.pkey(("or" if q[0] == "and" else "and", *[t_not(x) for x in q[1:]]))
            if q[0] == "not":
                return self.pkey(q[1])
            return ("not", self.pkey(q))
        q = self.expand(p)
        if q is not None:
            return self.pkey(q)
        a, f = self.lit(p)
        if a[0] == "lin":
            return ("lin", a[1], a[2], tuple(f(a[2] + d) for d in (-1, 0, 1)))
        if a[0] == "eq":
            return ("eq", a[1], a[2], f(a[2]))
        return (a, f(True))

    def evalp(self, p, asg):
        """Three-valued evaluation of p under an assignment {atom key -> value}."""
        if p == TRUE:
            return True
        if p == FALSE:
            return False
        h = p[0]
        if h == "and":
            r = True
            for x in p[1:]:
                v = self.evalp(x, asg)
                if v is False:
                    return False
                if v is None:
                    r = None
            return r
        if h == "or":
            r = False
            for x in p[1:]:
                v = self.evalp(x, asg)
                if v is True:
                    return True
                if v is None:
                    r = None
            return r
        if h == "not":
            v = self.evalp(p[1], asg)
            return None if v is None else not v
        if h == "ite":
            c = self.evalp(p[1], asg)
            if c is None:
                a, b = self.evalp(p[2], asg), self.evalp(p[3], asg)
                return a if a == b else None
            return self.evalp(p[2] if c else p[3], asg)
        q = self.expand(p)
        if q is not None:
            return self.evalp(q, asg)
        a, f = self.lit(p)
        if a[0] == "const":
            return a[1]
        if self.undecided(a, asg):
            return None
        k = self.avar(a)
        return f(asg[k]) if k in asg else f("<other>")

    @staticmethod
    def avar(a):
        if a[0] == "lin":
            return ("lin", a[1])
        if a[0] == "eq":
            return ("eq", a[1])
        return a

    def truth(self, p):
        v = self.evalp(p, self.assume)
        return v

    def consistent(self, asg):
        # truth(x) implies x is not None; x == c (string) implies x is not None
        for k, v in asg.items():
            if k[0] == "b" and isinstance(k[1], tuple) and k[1] and k[1][0] == "is" and v is True and len(k[1]) == 3 and k[1][2] == ("k", "None"):
                x = k[1][1]
                if asg.get(("b", ("truth", x))) is True:
                    return False
                e = asg.get(("eq", x))
                if e not in (None, "<other>"):
                    return False
            if k[0] == "b" and isinstance(k[1], tuple) and k[1] and k[1][0] == "any":
                # any(x op c): transitivity between thresholds of one form
                if len(k[1]) == 4 and v is True:
                    op, f, c = k[1][1:]
                    for k2, v2 in asg.items():
                        if k2[0] == "b" and isinstance(k2[1], tuple) and len(k2[1]) == 4 and k2[1][0] == "any" and k2[1][2] == f and v2 is False:
                            op2, c2 = k2[1][1], k2[1][3]
                            if op in (">", ">=") and op2 in (">", ">="):
                                if c > c2 or (c == c2 and not (op == ">=" and op2 == ">")):
                                    return False
                            if op in ("<", "<=") and op2 in ("<", "<="):
                                if c < c2 or (c == c2 and not (op == "<=" and op2 == "<")):
                                    return False
        # triangles x-y, y-z, x-z are not pruned: forms are treated as independent (sound for equivalence proofs only when equal)
        return True

    # public decisions ----------------------------------------------
    def prep(self, t):
        return canon_mu(canon_ix(prep(t, self.sub, self.strip, rw=self.rw)))

    # decision tree over the conditions that matter -----------------
    def undecided(self, a, asg):
        """Atom whose value the assignment leaves open (a condition that is always true or false is never open)."""
        if a[0] == "const":
            return False
        k = self.avar(a)
        if a[0] == "lin" and ("iv", a[1]) in asg:
            lo, hi = asg[("iv", a[1])]
            return lo < a[2] < hi
        if k in asg:
            return False
        return not (a[0] == "eq" and a[2] in asg.get(("ne", a[1]), ()))

    def branches(self, a, asg):
        out = []
        if a[0] == "lin":
            lo, hi = asg.get(("iv", a[1]), (NINF, PINF))
            t = a[2]
            for l, h, v in ((lo, t, t - 1 if lo == NINF else (lo + t) / 2), (t, t, t), (t, hi, t + 1 if hi == PINF else (t + hi) / 2)):
                out.append({**asg, ("lin", a[1]): v, ("iv", a[1]): (l, h)})
        elif a[0] == "eq":
            out.append({**asg, ("eq", a[1]): a[2]})
            out.append({**asg, ("ne", a[1]): (*asg.get(("ne", a[1]), ()), a[2])})
        else:
            out += [{**asg, a: True}, {**asg, a: False}]
        return [x for x in out if self.consistent(x)]

    def pickp(self, p, asg):
        """First open atom of a predicate; conditions inside its operands come first."""
        if p in (TRUE, FALSE):
            return None
        if p[0] in ("and", "or", "not", "ite"):
            if self.evalp(p, asg) is not None:
                return None
            for x in p[1:]:
                r = self.pickp(x, asg)
                if r is not None:
                    return r
            return None
        q = self.expand(p)
        if q is not None:
            return self.pickp(q, asg)
        for x in p[1:]:
            if isinstance(x, tuple):
                r = self.pickt(x, asg)
                if r is not None:
                    return r
        a, _ = self.lit(p)
        return a if self.undecided(a, asg) else None

    def facts(self, p, acc=None):
        """Atomic facts a predicate is made of (thresholds of one linear form count as one)."""
        acc = set() if acc is None else acc
        if p in (TRUE, FALSE):
            return acc
        if p[0] in ("and", "or", "not", "ite"):
            for x in p[1:]:
                self.facts(x, acc)
            return acc
        q = self.expand(p)
        if q is not None:
            return self.facts(q, acc)
        x = p[1] if p[0] == "truth" else p
        if x[0] == "call" and x[1] in ("numpy.any", "numpy.all") and len(x) == 3 and is_pred(x[2]):
            return self.facts(x[2], acc)
        a, _ = self.lit(p)
        if a[0] != "const":
            acc.add(self.avar(a))
        return acc

    def pickt(self, t, asg):
        """First open condition of the conditionals of a term, outermost first."""
        todo, seen = [t], set()
        while todo:
            x = todo.pop()
            if not isinstance(x, tuple) or not x or x in seen:
                continue
            seen.add(x)
            if x[0] in ("k", "s", "x"):
                continue
            if x[0] == "ite":
                r = self.pickp(self._aspred(x[1]), asg)
                if r is not None:
                    return r
            elif x[0] == "bin":
                for y in x[2:]:
                    if is_pred(y) and y[0] != "call":
                        r = self.pickp(y, asg)
                        if r is not None:
                            return r
            todo.extend(reversed(x[1:]))
        return None

    def tree(self, terms, given, visit, budget=6000):
        """Depth-first case split.  visit(terms, asg) -> ('done', result) | ('cut',) | ('split', atom) | ('leaf', result when the facts hold)."""
        keep = self.assume
        try:
            stack = [(tuple(terms), tuple(given), {})]
            while stack:
                budget -= 1
                if budget < 0:
                    raise Unknown("too many cases")
                ts, gs, asg = stack.pop()
                self.assume = asg
                n = []
                dead = False
                for g in gs:
                    g2 = self.deep(g)
                    if g2 != g:
                        g2 = self.prep(g2)
                    v = self.evalp(g2, asg)
                    if v is False:
                        dead = True
                        break
                    if v is None:
                        n.append(g2)
                if dead:
                    continue
                ts2 = []
                for t in ts:
                    t2 = self.deep(t)
                    ts2.append(self.prep(t2) if t2 != t else t)
                r = visit(ts2, asg)
                if r[0] == "cut":
                    continue
                if r[0] == "split":
                    stack.extend((ts2, n, x) for x in reversed(self.branches(r[1], asg)))
                    continue
                a = None
                if r[0] == "leaf":
                    for g in n:
                        a = self.pickp(g, asg)
                        if a is not None:
                            break
                if a is not None:
                    stack.extend((ts2, n, x) for x in reversed(self.branches(a, asg)))
                    continue
                return r[1]
            return None
        finally:
            self.assume = keep

    def implies(self, p, q, given=()):
        """True | False (with witness)."""
        p, q = self.prep(p), self.prep(q)
        if p == q:
            return True, None

        def visit(ts, asg):
            a, b = (self.evalp(x, asg) for x in ts)
            if a is False or b is True:
                return ("cut",)
            at = (self.pickp(ts[0], asg) if a is None else None) or (self.pickp(ts[1], asg) if b is None else None)
            if at is not None:
                return ("split", at)
            return ("leaf", asg) if a is True else ("cut",)

        w = self.tree([p, q], [self.prep(x) for x in given], visit)
        return (True, None) if w is None else (False, w)

    def equiv(self, p, q, given=()):
        p, q = self.prep(p), self.prep(q)

        def visit(ts, asg):
            if ts[0] == ts[1]:
                return ("cut",)
            a, b = (self.evalp(x, asg) for x in ts)
            if a is not None and a == b:
                return ("cut",)
            if a is None or b is None:
                at = self.pickp(ts[0], asg) or self.pickp(ts[1], asg)
                if at is not None:
                    return ("split", at)
                if a == b:
                    return ("cut",)
            return ("leaf", asg)

        w = self.tree([p, q], [self.prep(x) for x in given], visit)
        return (True, None) if w is None else (False, w)

    def compare(self, t1, t2, given=(), ok_funcs=(), ok_shapes=()):
        """('eq',None) | ('neq', witness) | ('unknown', reason)."""
        try:
            a, b = self.prep(t1), self.prep(t2)
            if a == b:
                return "eq", None
            heads = ok_heads(b)
            okb = set(subterms(b))
            und = []
            fs = [any(x and x[0] == "filter" for x in subterms(t)) for t in (a, b)]
            if fs[0] != fs[1] and any(x and x[0] == "sel" and is_pred(x[2]) for x in subterms(t1 if fs[1] else t2)):
                und_all = [("sel",)]
            else:
                und_all = []
            exc = und_all + sorted({x for x in subterms(a) if x and x[0] == "exc"} ^ {x for x in subterms(b) if x and x[0] == "exc"})

            def visit(ts, asg):
                a, b = ts
                if a == b:
                    return ("cut",)
                at = self.pickt(a, asg) or self.pickt(b, asg)
                if at is None and (is_pred(a) or a[0] == "truth") and (is_pred(b) or b[0] == "truth"):
                    at = self.pickp(a, asg) or self.pickp(b, asg)
                if at is not None:
                    return ("split", at)
                if self.same(a, b):
                    return ("cut",)
                self.assume = asg
                known = okb | set(subterms(b))
                left = [x for x in opaque_parts(a, ok_funcs, ok_shapes, heads) if x not in known]
                if not left and exc:
                    left = exc
                if not left:
                    left = [x for x in subterms(b) if x[0] == "top"]
                if not left:
                    left = [x for k in asg for x in subterms(k) if isinstance(x, tuple) and x and (x[0] == "top" or (x[0] in ("loop", "mu") and len(x) > 2 and (not str(x[1]).startswith("#") or ":" in str(x[1]) and ("label", x[1]) not in heads)))]
                if left:
                    und.append("uninterpreted " + show(left[0])[:80])
                    return ("cut",)
                return ("leaf", self.show_asg(asg))

            w = self.tree([a, b], [self.prep(x) for x in given], visit)
            if w is not None:
                return "neq", w
            return ("unknown", und[0]) if und else ("eq", None)
        except Unknown as e:
            return "unknown", str(e)
        finally:
            self.assume = {}

    def same(self, a, b):
        if a == b:
            return True
        a, b = self.reduce(a), self.reduce(b)
        if is_pred(a) != is_pred(b):
            a, b = as_bool(a), as_bool(b)
        if a == b:
            return True
        if a[0] == b[0] == "filter":
            if not self.same(a[1], b[1]):
                return False
            if a[2] == b[2]:
                return True
            keep = self.assume
            r, _ = self.equiv(a[2], b[2])
            self.assume = keep
            if not r and keep:
                raise Unknown("filter under assumptions")
            return r
        if a[0] == b[0] and a[0] in ("pair", "dictof"):
            return len(a) == len(b) and all(self.same(x, y) for x, y in zip(a[1:], b[1:]))
        if a[0] in ("tuple", "list") and b[0] in ("tuple", "list"):
            return len(a) == len(b) and all(self.same(x, y) for x, y in zip(a[1:], b[1:]))
        if (is_pred(a) or a[0] == "truth") and (is_pred(b) or b[0] == "truth"):
            x, y = (self.evalp(t, self.assume) if is_pred(t) else None for t in (a, b))
            if x is not None and y is not None:
                return x == y
            keep = self.assume
            r, _ = self.equiv(a, b)
            self.assume = keep
            return r
        d = self.add(self.poly(a), self.scale(self.poly(b), -F1))
        if self.is_zero(d):
            return True
        # on a boundary region (form == threshold) eliminate one variable
        for k, v in self.assume.items():
            if k[0] == "lin":
                lo, hi = self.assume.get(("iv", k[1]), (0, 1))
                if lo == hi:
                    d = self.eliminate(d, self.polys[k[1]], v)
        return self.is_zero(d)

    def eliminate(self, d, f, v):
        for m, c in f.items():
            if len(m) == 1 and m[0][1] == 1 and not any(a == m[0][0] for m2 in f if m2 != m for a, _ in m2):
                at = m[0][0]
                val = self.scale(self.add(self.kpoly(v), self.scale({x: y for x, y in f.items() if x != m}, -F1)), 1 / c)
                r = {}
                for dm, dc in d.items():
                    dd = dict(dm)
                    e = dd.pop(at, 0)
                    term = {tuple(sorted(dd.items())): dc}
                    if e:
                        if e < 0 and not val:
                            return d
                        term = self.mul(term, self.power(val, Fraction(e)))
                    r = self.add(r, term)
                return r
        return d

    def reduce(self, t):
        while t[0] == "ite":
            d = self.truth(t[1])
            if d is None:
                break
            t = t[2] if d else t[3]
        return t

    def deep(self, t):
        """Resolve every selection decided by the current assignment."""
        if not isinstance(t, tuple) or not t:
            return t
        t = self.reduce(t) if t[0] == "ite" else t
        if t[0] in ("s", "attr") and self.assume.get(("b", ("is", self.ckey(t), ("k", "None")))) is True:
            return NONE
        return tuple(self.deep(x) if isinstance(x, tuple) else x for x in t)

    def show_asg(self, asg):
        out = []
        for k, v in asg.items():
            if k[0] in ("iv", "ne"):
                continue
            if k[0] == "lin":
                out.append(f"{self.show_poly(self.polys[k[1]])} ~ {float(v)}")
            else:
                out.append(f"{k[1:]}={v}"[:100])
        return "; ".join(out) or "always"

    def show_poly(self, p):
        return " + ".join(f"{c}*" + "*".join(f"{self.show_atom(a)}^{e}" for a, e in m) for m, c in list(p.items())[:6])

    def show_atom(self, a):
        k = self.atoms[a]
        if k[0] == "P":
            return "(" + self.show_poly(self.polys[k[1]]) + ")"
        try:
            return show(k)[:60]
        except Exception:
            return str(k)[:60]


# ------------------------------------------------------------------ expected formulas
def formula(src, **names):
    """Parse a documented formula into a term; names map identifiers to terms (default: ('s', name))."""
    import ast as _a

    ops = {_a.Add: "+", _a.Sub: "-", _a.Mult: "*", _a.Div: "/", _a.Pow: "**", _a.FloorDiv: "//", _a.Mod: "%"}
    cmps = {_a.Lt: "<", _a.LtE: "<=", _a.Gt: ">", _a.GtE: ">=", _a.Eq: "==", _a.NotEq: "!=", _a.Is: "is", _a.IsNot: "isnot", _a.In: "in", _a.NotIn: "notin"}

    def go(e):
        if isinstance(e, _a.Constant):
            return K(e.value)
        if isinstance(e, _a.Name):
            if e.id == "pi":
                return names.get("pi", ("x", "pi"))
            return names.get(e.id, ("s", e.id))
        if isinstance(e, _a.BinOp):
            if isinstance(e.op, _a.BitAnd):
                return t_and([go(e.left), go(e.right)])
            if isinstance(e.op, _a.BitOr):
                return t_or([go(e.left), go(e.right)])
            return ("bin", ops[type(e.op)], go(e.left), go(e.right))
        if isinstance(e, _a.UnaryOp):
            if isinstance(e.op, _a.USub):
                v = go(e.operand)
                return ("k", -v[1]) if v[0] == "k" else ("bin", "-", ("k", 0), v)
            p = go(e.operand)
            return t_not(p if is_pred(p) else ("truth", p))
        if isinstance(e, _a.Compare):
            ps, l = [], go(e.left)
            for o, r in zip(e.ops, e.comparators):
                r = go(r)
                ps.append(("cmp", cmps[type(o)], l, r))
                l = r
            return t_and(ps)
        if isinstance(e, _a.BoolOp):
            ps = [go(x) for x in e.values]
            ps = [p if is_pred(p) else ("truth", p) for p in ps]
            return t_and(ps) if isinstance(e.op, _a.And) else t_or(ps)
        if isinstance(e, _a.IfExp):
            return t_ite(go(e.test), go(e.body), go(e.orelse))
        if isinstance(e, _a.Call):
            n = _a.unparse(e.func)
            if "." not in n and n not in ("len", "isinstance"):
                n = "numpy." + n
            return ("call", n, *[go(x) for x in e.args], *[("kw", k.arg, go(k.value)) for k in e.keywords])
        if isinstance(e, _a.Attribute):
            return ("attr", go(e.value), e.attr)
        if isinstance(e, _a.Subscript):
            return ("item", go(e.value), go(e.slice))
        if isinstance(e, (_a.Tuple, _a.List)):
            return ("tuple" if isinstance(e, _a.Tuple) else "list", *[go(x) for x in e.elts])
        raise ValueError(_a.dump(e))

    return go(_a.parse(src, mode="eval").body)
