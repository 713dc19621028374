"""Check context: obligations, verdicts, shared helpers."""

from __future__ import annotations

import os
import pickle
import struct
import traceback

from .interp import EMPTY, Budget, HObj, Interp, St, V, show
from .norm import Norm
from .prog import AnalysisBroken, Cls, Program


class Cx:
    max_term = 40000     # larger terms are unknown

    def __init__(self, prop, tier="quick", prog=None):
        self.prop, self.tier = prop, tier
        self.P = prog or Program()
        self.obs = []          # (verdict, rule, key, where, msg)
        self.funcs = set()     # analysed functions
        self.nevents = 0
        self.nterms = 0
        self.rules = {}
        self.broken = []
        self._built = {}
        self._queue = []
        from . import norm, refs
        norm.OBJ_METHODS.clear()
        norm.OBJ_METHODS.update(n for c in self.P.classes.values() for n in c.methods if n not in refs.EXTERNAL and "." + n not in norm.SIGS and not n.startswith("__"))

    # ---- verdicts
    def ok(self, rule, key, where="", msg=""):
        self.obs.append(("ok", rule, key, where, msg))

    def bad(self, rule, key, where, msg):
        if not any(o[0] == "bad" and o[2] == key for o in self.obs):
            self.obs.append(("bad", rule, key, where, msg))

    def unk(self, rule, key, where="", msg=""):
        self.obs.append(("unknown", rule, key, where, msg))

    def verdict(self, good, rule, key, where, msg=""):
        if good is True:
            self.ok(rule, key, where, msg)
        elif good is False:
            self.bad(rule, key, where, msg)
        else:
            self.unk(rule, key, where, msg)
        return good

    def rule(self, name, text, fn, *a, **k):
        """Queue one rule (run by flush); rules that share an interpreted constructor are kept on one worker."""
        group = k.pop("group", None)
        if group is None:
            group = next((x.qual for x in a if isinstance(x, Cls)), name)
        self.rules[name] = text
        self._queue.append((group, name, fn, a, k))

    def flush(self, jobs=None):
        """Run the queued rules, in parallel worker processes forked from this one."""
        q, self._queue = self._queue, []
        groups = {}
        for i, r in enumerate(q):
            groups.setdefault(r[0], []).append(i)
        order = sorted(groups.values(), key=lambda g: (-len(g), g[0]))
        jobs = min(jobs or int(os.environ.get("LCX_JOBS") or os.cpu_count() or 1), len(order))
        res = {}
        if jobs > 1 and len(order) < 12000:
            res = self._fork(q, order, jobs)
        for g in order:
            for i in g:
                if i not in res:
                    res[i] = self._delta(q[i])
        for i in range(len(q)):
            obs, funcs, nev, nt, broken = res[i]
            for o in obs:
                if o[0] == "bad" and any(x[0] == "bad" and x[2] == o[2] for x in self.obs):
                    continue
                self.obs.append(o)
            self.funcs |= funcs
            self.nevents += nev
            self.nterms += nt
            self.broken += broken

    def _delta(self, r):
        keep = self.obs, self.funcs, self.nevents, self.nterms, self.broken
        self.obs, self.funcs, self.nevents, self.nterms, self.broken = [], set(), 0, 0, []
        try:
            self._run_rule(r[1], r[2], r[3], r[4])
            return self.obs, self.funcs, self.nevents, self.nterms, self.broken
        finally:
            self.obs, self.funcs, self.nevents, self.nterms, self.broken = keep

    def _fork(self, q, order, jobs):
        tr, tw = os.pipe()
        os.write(tw, b"".join(struct.pack("<i", n) for n in range(len(order))))
        os.close(tw)
        kids = []
        for _ in range(jobs):
            r, w = os.pipe()
            pid = os.fork()
            if pid == 0:
                code = 0
                try:
                    os.close(r)
                    out = []
                    while True:
                        b = os.read(tr, 4)
                        if len(b) < 4:
                            break
                        for i in order[struct.unpack("<i", b)[0]]:
                            out.append((i, self._delta(q[i])))
                    with os.fdopen(w, "wb") as fh:
                        fh.write(pickle.dumps(out))
                except BaseException:
                    code = 1
                finally:
                    os._exit(code)
            os.close(w)
            kids.append((pid, r))
        os.close(tr)
        res = {}
        for pid, r in kids:
            with os.fdopen(r, "rb") as fh:
                data = fh.read()
            os.waitpid(pid, 0)
            try:
                for i, d in pickle.loads(data):
                    res[i] = d
            except Exception:
                pass
        return res

    def _run_rule(self, name, fn, a, k):
        """Internal failures become undecided obligations, missing anchors are reported as broken."""
        try:
            fn(*a, **k)
        except AnalysisBroken as e:
            self.broken.append(f"{name}: {e}")
        except Budget:
            self.unk(name, f"{name}:budget", "", "analysis budget exhausted")
        except RecursionError:
            self.unk(name, f"{name}:recursion", "", "recursion limit")
        except Exception as e:  # engine limitation, never an alarm
            self.unk(name, f"{name}:{type(e).__name__}", "", traceback.format_exc(limit=-3)[-600:])

    # ---- interpretation
    def interp(self, **k):
        k.setdefault("max_term", self.max_term)
        return Interp(self.P, **k)

    def done(self, it):
        self.funcs |= it.visited
        self.nevents += len(it.events)

    def self_obj(self, it, st, cls, name="self", init=False, given=None, kwargs=None):
        """Symbolic instance of cls; with init=True its constructor is interpreted first (symbolic arguments)."""
        c = self.P.cls(cls) if isinstance(cls, str) else cls
        v = it.sym_obj(st, c, name)
        if init:
            f = c.find("__init__")
            if f is not None:
                st.heap[name].sym = None
                g = dict(given or {})
                kw = {}
                if f.kwarg:
                    kw = {"**": kwargs if kwargs is not None else V(t=("s", name + ".__init__.**"), g=frozenset(["**"]), o=frozenset(["**"]))}
                it.mute += 1
                try:
                    it.run(f, selfv=v, st=st, given={**g, **kw}, sym_prefix=name + ".__init__.")
                finally:
                    it.mute -= 1
                st.dead = False
                st.pc = ()
                h = st.heap[name].clone()
                h.sym = ("s", name)
                st.heap[name] = h
        return v

    def built(self, cls, setup=None, key=None):
        """(interp, fresh state, self value) of a constructed symbolic instance; constructor run once per class."""
        c = self.P.cls(cls) if isinstance(cls, str) else cls
        k = (c.qual, key)
        if k not in self._built:
            it = self.interp()
            if setup:
                setup(it)
            st = St({}, {}, ())
            v = self.self_obj(it, st, c, init=True)
            self._built[k] = (it, st, v)
        it, st, v = self._built[k]
        it.events.clear()
        it.steps = 0
        it.visited = set()
        return it, st.copy(), v

    # ---- formulas
    def compare(self, rule, key, where, term, want, given=(), sub=None, strip=True, ok_funcs=(), what="", rw=None):
        self.nterms += 1
        n = Norm(sub=sub, strip=strip, rw=rw)
        r, w = n.compare(term, want, given=given, ok_funcs=ok_funcs)
        if r == "eq":
            self.ok(rule, key, where, what)
            return True
        if r == "neq":
            self.bad(rule, key, where, f"{what}: extracted {show(n.prep(term))[:260]} differs from the required {show(n.prep(want))[:200]} when {w}")
            return False
        self.unk(rule, key, where, f"{what}: {w}")
        return None

    def where(self, f):
        return f"{f.file}:{f.node.lineno}"


def loc(ev):
    return f"{ev.file}:{ev.line} in {ev.fn}"
