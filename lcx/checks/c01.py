"""C01: every random draw of an operation comes from the generator its caller supplied."""

from ..ctx import loc
from ..interp import St, V, show
from ..rngs import DrawScan, install, mk_gen, rng_param


def entries(cx):
    """(class or None, function, rng parameter) for everything that accepts a generator."""
    P = cx.P
    out = []
    for m in P.mods.values():
        for f in m.funcs.values():
            p = rng_param(f)
            if p:
                out.append((None, f, p))
    seen = set()
    for c in sorted(P.classes.values(), key=lambda c: c.qual):
        names = {n for k in c.mro() for n in k.methods}
        for n in sorted(names):
            f = c.find(n)
            p = rng_param(f)
            if p and not n.startswith("__"):
                out.append((c, f, p))
    return out


# documented to draw from a third-party library's own generator ("This random number generator is not used by this node")
EXTERNAL = {"BilbyPriorNode"}


def rng_methods(P):
    d = {}
    for c in P.classes.values():
        for n, f in c.methods.items():
            if rng_param(f):
                d.setdefault(n, []).append(f)
    return d


def run(cx):
    cx.max_term = 5000      # the flow of generators does not need large terms
    es = entries(cx)
    rngm = rng_methods(cx.P)
    cx.entries = len(es)
    for c, f, p in es:
        name = f"{c.name + '.' if c else ''}{f.name}"
        cx.rule(f"given:{name}", "with a supplied generator, every draw reachable from this entry uses it and every nested call that "
                "accepts a generator receives it", one, cx, c, f, p, name, rngm)


def one(cx, c, f, p, name, rngm):
    if c is not None and not f.static:
        it, st, selfv = cx.built(c, install, "rng")
    else:
        it = cx.interp()
        install(it)
        st, selfv = St({}, {}, ()), None
    rng = mk_gen(it, st, "RNG", tags=["RNG"], t=("s", "RNG"))
    it.run(f, selfv=selfv, st=st, given={p: rng})
    cx.done(it)
    ds = DrawScan(it, st, rngm)
    n = 0

    def given(v):
        return isinstance(v, V) and v.a == frozenset([("obj", "RNG")])

    def derived(v):
        """A generator or seed drawn from the supplied one."""
        if not isinstance(v, V):
            return False
        if "RNG" in v.g and not any(a[0] == "obj" and str(a[1]).startswith("gencopy") for a in v.a):
            gs = [a for a in v.a if a[0] == "obj" and str(a[1]).startswith("gen")]
            if not gs:
                return True
            for a in gs:
                h = st.heap.get(a[1])
                if h is None or h.extra is None or "RNG" not in h.extra.g:
                    return False
            return True
        return False

    for e, how, r in ds.draws():
        if r is None and "urandom" in e.name and e.fn.endswith("__init__"):
            continue  # seeding of a freshly constructed node, not a draw of this operation
        n += 1
        key = f"draw:{e.fn}:{e.name if isinstance(e.name, str) else 'dynamic'}"
        if r is None:
            cx.bad(f"given:{name}", key, loc(e), f"{how} is used on a path from {name} although the caller supplied a generator")
        elif how == "sampler" and any(x in e.fn.split(".") for x in EXTERNAL):
            cx.ok(f"given:{name}", key, loc(e), "documented external sampler")
        elif how == "sampler":
            if any(given(x) or derived(x) for x in r) or any(x is not None and derived(x) for x in (e.star or ()) if isinstance(x, V)):
                cx.ok(f"given:{name}", key, loc(e))
            else:
                cx.bad(f"given:{name}", key, loc(e), f".{e.name}() on a path from {name} receives neither the supplied generator nor a seed derived from it")
        elif given(r) or derived(r):
            cx.ok(f"given:{name}", key, loc(e))
        else:
            cx.bad(f"given:{name}", key, loc(e), f"draws from {show(r.t)[:80]} on a path from {name} although the caller supplied a generator")
    for e, callee, v in ds.passed():
        if e.name == f.qual and e.seq == it.events[0].seq:
            continue
        n += 1
        key = f"pass:{e.fn}:{callee.split('.')[-1]}"
        if v == "star":
            cx.unk(f"given:{name}", key, loc(e), "generator may travel in **kwargs")
        elif v is not None and (given(v) or derived(v)):
            cx.ok(f"given:{name}", key, loc(e))
        else:
            cx.bad(f"given:{name}", key, loc(e), f"{callee} accepts a generator but is called on a path from {name} "
                   f"{'without one' if v is None else 'with ' + show(v.t)[:60]} although the caller supplied a generator")
    if n == 0:
        cx.ok(f"given:{name}", f"nodraw:{name}", cx.where(f), "no draw reachable")
