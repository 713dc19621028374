"""Generator provenance: which random generator every draw comes from."""

from __future__ import annotations

from .ctx import loc
from .interp import EMPTY, HObj, St, V, show

RNG_PARAMS = ("rng_info", "rng")
NOT_DRAWS = {"bit_generator", "spawn", "__class__"}
CONSTRUCTORS = {"default_rng", "Generator", "SeedSequence", "RandomState", "PCG64", "MT19937", "Philox", "SFC64", "BitGenerator"}
SAMPLERS = {"rvs", "sample", "resample", "sample_subset"}


def rng_param(f):
    for p in RNG_PARAMS:
        if p in f.call_params():
            return p
    return None


def mk_gen(it, st, label, seed=None, tags=EMPTY, t=None):
    st.heap[label] = HObj("gen", label=label, extra=seed)
    return V(a=frozenset([("obj", label)]), t=t or ("s", label), g=frozenset(tags), n="V")


def install(it):
    """Model generator objects as heap objects of kind 'gen'."""

    def default_rng(it, st, ev):
        args = list(ev.args) + list(ev.kw.values())
        a = args[0] if args else None
        if a is not None and any(h.kind == "gen" for _, h in it.objs(a, st)):
            return a  # default_rng(generator) returns the generator itself
        g = frozenset().union(*[x.g for x in args]) if args else EMPTY
        t = ("call", "numpy.random.default_rng", *[it.T(x, st) for x in args])
        return mk_gen(it, st, f"gen{next(it.ctr)}", seed=a, tags=g, t=t)

    def copied(it, st, ev):
        if ev.args and any(h.kind == "gen" for _, h in it.objs(ev.args[0], st)):
            return mk_gen(it, st, f"gencopy{next(it.ctr)}", t=("s", "copied generator"))
        return None

    it.intrinsics["numpy.random.default_rng"] = default_rng
    it.intrinsics["numpy.random.RandomState"] = default_rng
    it.intrinsics["numpy.random.Generator"] = default_rng
    it.intrinsics["copy.deepcopy"] = copied
    it.intrinsics["copy.copy"] = copied


def gens_of(v, st_heap_kinds):
    return [a[1] for a in v.a if a[0] == "obj" and a[1] in st_heap_kinds]


class DrawScan:
    """Classify the events of one interpretation as draws."""

    def __init__(self, it, st, rngm):
        self.it, self.st, self.rngm = it, st, rngm
        self.allm = {}
        for c in it.prog.classes.values():
            for n, f in c.methods.items():
                self.allm.setdefault(n, []).append(f)

    def isgen(self, v):
        return v is not None and any(a[0] == "obj" and str(a[1]).startswith(("gen", "RNG")) for a in v.a)

    def draws(self):
        """Yield (event, how, receiver-or-None) for each random draw."""
        for e in self.it.events:
            if e.kind == "ext":
                n = e.name
                if n.startswith("numpy.random."):
                    rest = n[len("numpy.random."):]
                    if rest.split(".")[0] not in CONSTRUCTORS and rest != "":
                        if rest == "seed":
                            continue
                        yield e, f"module-level generator {n}", None
                elif n.startswith("random.") or n in ("os.urandom", "secrets.token_bytes", "secrets.randbits", "uuid.uuid4"):
                    yield e, f"process-level randomness {n}", None
            elif e.kind == "mcall":
                if self.isgen(e.recv):
                    nm = e.name if isinstance(e.name, str) else "draw"
                    if nm not in NOT_DRAWS:
                        yield e, "draw", e.recv
                elif isinstance(e.name, str) and e.name in SAMPLERS:
                    gs = [v for v in list(e.args) + list(e.kw.values())]
                    yield e, "sampler", gs
            elif e.kind == "callv" and e.recv is not None and self.isgen(e.recv):
                yield e, "draw", e.recv

    def passed(self):
        """Yield (event, callee, value bound to its generator parameter or None) for calls that accept one."""
        for e in self.it.events:
            if e.kind == "call" and e.targets is not None:
                f = e.targets
                p = rng_param(f)
                if p is None:
                    continue
                yield e, f.qual, bind(f, e, p)
            elif e.kind == "mcall" and isinstance(e.name, str) and e.name in self.rngm:
                # only receivers whose class the analysis cannot see: every method the call could reach must accept one
                cand = [f for f in self.allm.get(e.name, ()) if fits(f, e)]
                if not cand or any(rng_param(f) is None for f in cand):
                    continue
                f = cand[0]
                yield e, "*." + e.name, bind(f, e, rng_param(f), unbound=True)


def fits(f, e):
    """Could the call be a well-formed call of method f?"""
    ps = [p for p in f.call_params()]
    if f.cls is not None and not f.static and ps and ps[0] in ("self", "cls"):
        ps = ps[1:]
    if len(e.args) > len([p for p in f.params]) and not f.vararg:
        return False
    if not f.kwarg and any(k not in ps for k in e.kw):
        return False
    if e.star is None or not any(e.star):
        a = f.node.args
        pos = [x.arg for x in a.posonlyargs + a.args]
        if f.cls is not None and not f.static and pos:
            pos = pos[1:]
        need = pos[: len(pos) - len(a.defaults)]
        if any(p not in e.kw for p in need[len(e.args):]):
            return False
    return True


def bind(f, e, p, unbound=False):
    if p in e.kw:
        return e.kw[p]
    names = list(f.params)
    if unbound and f.cls is not None and not f.static and names:
        names = names[1:]
    if p in names:
        i = names.index(p)
        if i < len(e.args):
            return e.args[i]
    if e.star and e.star[1] is not None:
        return "star"
    return None
