"""Program model: modules, classes, functions, imports, MRO -- all read from source with `ast`."""

from __future__ import annotations

import ast
import hashlib
import os

REPO = os.environ.get("LCX_REPO", "/repo")
PKG = "lightcurvelynx"


class AnalysisBroken(Exception):
    """An anchor the analysis needs is gone: neither a pass nor a violation."""


class Func:
    __slots__ = ("name", "qual", "node", "mod", "cls", "static", "classm", "prop", "setter", "params",
                 "posonly", "vararg", "kwonly", "kwarg", "defaults", "is_gen", "closure_env", "decos", "outer", "inplace")

    def __init__(self, node, mod, cls, qual, outer=None):
        self.node, self.mod, self.cls, self.qual = node, mod, cls, qual
        self.outer = outer
        self.closure_env = None
        if isinstance(node, ast.Lambda):
            self.name = "<lambda>"
            self.decos = []
        else:
            self.name = node.name
            self.decos = [deco_name(d) for d in node.decorator_list]
        self.static = "staticmethod" in self.decos
        self.classm = "classmethod" in self.decos
        self.prop = any(d in ("property", "cached_property", "functools.cached_property") for d in self.decos)
        self.setter = any(d.endswith(".setter") for d in self.decos)
        a = node.args
        self.params = [p.arg for p in a.posonlyargs + a.args]
        self.vararg = a.vararg.arg if a.vararg else None
        self.kwonly = [p.arg for p in a.kwonlyargs]
        self.kwarg = a.kwarg.arg if a.kwarg else None
        self.defaults = {}
        pos = self.params
        for p, d in zip(pos[len(pos) - len(a.defaults):], a.defaults):
            self.defaults[p] = d
        for p, d in zip(self.kwonly, a.kw_defaults):
            if d is not None:
                self.defaults[p] = d
        self.is_gen = False
        self.inplace = ()           # parameters that are never rebound: a change of them is an in-place change
        if not isinstance(node, ast.Lambda):
            bound = {n.id for n in walk_own(node) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store)}
            self.inplace = tuple(p for p in self.params + self.kwonly if p not in bound)
            for n in walk_own(node):
                if isinstance(n, (ast.Yield, ast.YieldFrom)):
                    self.is_gen = True

    @property
    def all_params(self):
        return self.params + self.kwonly

    def call_params(self):
        """Parameters a caller supplies (no self/cls)."""
        ps = list(self.params)
        if self.cls is not None and not self.static and ps:
            ps = ps[1:]
        return ps + self.kwonly

    @property
    def file(self):
        return self.mod.rel

    def __repr__(self):
        return f"<Func {self.qual}>"


def deco_name(d):
    if isinstance(d, ast.Call):
        d = d.func
    try:
        return ast.unparse(d)
    except Exception:
        return "?"


def walk_own(fn_node):
    """Walk a function body without entering nested function/class definitions."""
    stack = list(fn_node.body)
    while stack:
        n = stack.pop()
        yield n
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda, ast.ClassDef)):
            continue
        stack.extend(ast.iter_child_nodes(n))


class Cls:
    __slots__ = ("name", "qual", "node", "mod", "base_exprs", "bases", "ext_bases", "methods", "setters", "attrs", "_mro", "prog")

    def __init__(self, node, mod, qual):
        self.node, self.mod, self.qual, self.name = node, mod, qual, node.name
        self.bases, self.ext_bases = [], []
        self.methods, self.setters, self.attrs = {}, {}, {}
        self._mro = None
        for st in node.body:
            if isinstance(st, (ast.FunctionDef, ast.AsyncFunctionDef)):
                f = Func(st, mod, self, f"{qual}.{st.name}")
                if f.setter:
                    self.setters[st.name] = f
                else:
                    self.methods[st.name] = f
            elif isinstance(st, ast.Assign):
                for t in st.targets:
                    if isinstance(t, ast.Name):
                        self.attrs[t.id] = st.value
            elif isinstance(st, ast.AnnAssign) and st.value is not None and isinstance(st.target, ast.Name):
                self.attrs[st.target.id] = st.value

    def mro(self):
        if self._mro is None:
            # C3 linearisation over project bases (external bases are recorded, not walked).
            def merge(seqs):
                res = []
                seqs = [list(s) for s in seqs if s]
                while seqs:
                    for s in seqs:
                        c = s[0]
                        if not any(c in t[1:] for t in seqs):
                            break
                    else:
                        c = seqs[0][0]
                    res.append(c)
                    seqs = [[x for x in t if x is not c] for t in seqs]
                    seqs = [t for t in seqs if t]
                return res

            self._mro = merge([[self]] + [b.mro() for b in self.bases] + [list(self.bases)])
        return self._mro

    def find(self, name):
        for c in self.mro():
            if name in c.methods:
                return c.methods[name]
        return None

    def find_setter(self, name):
        for c in self.mro():
            if name in c.setters:
                return c.setters[name]
        return None

    def find_attr(self, name):
        for c in self.mro():
            if name in c.attrs:
                return c, c.attrs[name]
        return None

    def find_after(self, owner, name):
        """super() lookup: next definition of name after `owner` in self's MRO."""
        m = self.mro()
        if owner in m:
            m = m[m.index(owner) + 1:]
        for c in m:
            if name in c.methods:
                return c.methods[name]
        return None

    def is_sub(self, other):
        return other in self.mro()

    def all_ext_bases(self):
        out = []
        for c in self.mro():
            out.extend(c.ext_bases)
        return out

    def __repr__(self):
        return f"<Cls {self.qual}>"


class Module:
    def __init__(self, name, path, rel, src):
        self.name, self.path, self.rel, self.src = name, path, rel, src
        self.tree = ast.parse(src, filename=path)
        self.lines = src.split("\n")
        self.funcs, self.classes, self.consts, self.imports = {}, {}, {}, {}
        self.multi = set()
        self._scan(self.tree.body)

    def _scan(self, body):
        for st in body:
            if isinstance(st, (ast.FunctionDef, ast.AsyncFunctionDef)):
                self.funcs[st.name] = Func(st, self, None, f"{self.name}.{st.name}")
            elif isinstance(st, ast.ClassDef):
                self.classes[st.name] = Cls(st, self, f"{self.name}.{st.name}")
            elif isinstance(st, ast.Import):
                for al in st.names:
                    if al.asname:
                        self.imports[al.asname] = al.name
                    else:
                        self.imports[al.name.split(".")[0]] = al.name.split(".")[0]
            elif isinstance(st, ast.ImportFrom):
                base = st.module or ""
                if st.level:
                    parts = self.name.split(".")
                    is_pkg = self.path.endswith("__init__.py")
                    parts = parts if is_pkg else parts[:-1]
                    parts = parts[: len(parts) - (st.level - 1)] if st.level > 1 else parts
                    base = ".".join(parts + ([st.module] if st.module else []))
                for al in st.names:
                    self.imports[al.asname or al.name] = f"{base}.{al.name}"
            elif isinstance(st, ast.Assign):
                for t in st.targets:
                    if isinstance(t, ast.Name):
                        if t.id in self.consts:
                            self.multi.add(t.id)
                        self.consts[t.id] = st.value
            elif isinstance(st, ast.AnnAssign) and st.value is not None and isinstance(st.target, ast.Name):
                self.consts[st.target.id] = st.value
            elif isinstance(st, (ast.If, ast.Try)):
                self._scan(st.body)
                for h in getattr(st, "handlers", []):
                    self._scan(h.body)
                self._scan(st.orelse)


class Program:
    def __init__(self, repo=None):
        self.repo = repo or REPO
        self.src_root = os.path.join(self.repo, "src")
        self.mods = {}
        root = os.path.join(self.src_root, PKG)
        if not os.path.isdir(root):
            raise AnalysisBroken(f"source package {root} not found")
        h = hashlib.sha256()
        for dp, dn, fn in sorted(os.walk(root)):
            dn.sort()
            for f in sorted(fn):
                if not f.endswith(".py"):
                    continue
                path = os.path.join(dp, f)
                rel = os.path.relpath(path, self.repo)
                parts = os.path.relpath(path, self.src_root)[:-3].split(os.sep)
                if parts[-1] == "__init__":
                    parts = parts[:-1]
                name = ".".join(parts)
                with open(path, encoding="utf-8") as fh:
                    src = fh.read()
                h.update(rel.encode() + b"\0" + src.encode() + b"\0")
                try:
                    self.mods[name] = Module(name, path, rel, src)
                except SyntaxError as e:
                    raise AnalysisBroken(f"{rel} does not parse: {e}") from e
        self.digest = h.hexdigest()
        self.classes, self.funcs = {}, {}
        for m in self.mods.values():
            for c in m.classes.values():
                self.classes[c.qual] = c
            for f in m.funcs.values():
                self.funcs[f.qual] = f
        for c in self.classes.values():
            for b in c.node.bases:
                r = self.resolve_expr(c.mod, b)
                if isinstance(r, Cls):
                    c.bases.append(r)
                else:
                    c.ext_bases.append(r if isinstance(r, str) else ast.unparse(b))
        for c in self.classes.values():
            for f in c.methods.values():
                self.funcs.setdefault(f.qual, f)

    # ---- resolution -------------------------------------------------
    def resolve_dotted(self, dotted, depth=0):
        """dotted path -> Module | Func | Cls | ('const', Module, name) | str (external)."""
        if dotted in self.mods:
            return self.mods[dotted]
        if not (dotted == PKG or dotted.startswith(PKG + ".")):
            return dotted
        if depth > 10:
            return dotted
        mod, _, name = dotted.rpartition(".")
        parent = self.resolve_dotted(mod, depth + 1)
        if isinstance(parent, Module):
            return self.resolve_in(parent, name, depth + 1)
        if isinstance(parent, Cls):
            f = parent.find(name)
            if f is not None:
                return f
        return dotted

    def resolve_in(self, mod, name, depth=0):
        if name in mod.funcs:
            return mod.funcs[name]
        if name in mod.classes:
            return mod.classes[name]
        if name in mod.imports:
            return self.resolve_dotted(mod.imports[name], depth + 1)
        if name in mod.consts:
            return ("const", mod, name)
        sub = f"{mod.name}.{name}"
        if sub in self.mods:
            return self.mods[sub]
        return None

    def resolve_expr(self, mod, e):
        if isinstance(e, ast.Name):
            r = self.resolve_in(mod, e.id)
            return r if r is not None else e.id
        if isinstance(e, ast.Attribute):
            b = self.resolve_expr(mod, e.value)
            if isinstance(b, Module):
                r = self.resolve_in(b, e.attr)
                return r if r is not None else f"{b.name}.{e.attr}"
            if isinstance(b, str):
                return f"{b}.{e.attr}"
            if isinstance(b, Cls):
                return b.find(e.attr)
        return None

    # ---- lookup helpers ---------------------------------------------
    def cls(self, name):
        """Class by short name (unique) or qualified name."""
        if name in self.classes:
            return self.classes[name]
        hits = [c for c in self.classes.values() if c.name == name]
        if len(hits) == 1:
            return hits[0]
        if not hits:
            raise AnalysisBroken(f"class {name} not found in the package")
        raise AnalysisBroken(f"class name {name} is ambiguous: {[c.qual for c in hits]}")

    def has_cls(self, name):
        return any(c.name == name for c in self.classes.values())

    def func(self, name, mod=None):
        hits = [f for m in self.mods.values() if mod is None or m.name.endswith(mod) for f in m.funcs.values() if f.name == name]
        if len(hits) == 1:
            return hits[0]
        if not hits:
            raise AnalysisBroken(f"function {name} not found in the package")
        raise AnalysisBroken(f"function name {name} is ambiguous: {[f.qual for f in hits]}")

    def method(self, cname, name):
        f = self.cls(cname).find(name)
        if f is None:
            raise AnalysisBroken(f"method {cname}.{name} not found")
        return f

    def subclasses(self, base, include=True):
        b = self.cls(base) if isinstance(base, str) else base
        return sorted((c for c in self.classes.values() if c.is_sub(b) and (include or c is not b)), key=lambda c: c.qual)
