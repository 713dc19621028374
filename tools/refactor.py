#!/usr/bin/env python3
"""Behaviour-preserving edits used while developing the checks (not a check): edit one function at a time in memory, run checks, list alarms.

usage: refactor.py PROP[,PROP...] path/under/src/lightcurvelynx.py [function-or-Class.method ...] [--kinds=a,b] [--each]
"""
import ast
import builtins
import collections
import copy
import importlib
import io
import os
import pickle
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.dirname(HERE))
sys.setrecursionlimit(20000)
from lcx import prog  # noqa: E402
from lcx.ctx import Cx  # noqa: E402

N = [0]


def fresh(base="tmp"):
    N[0] += 1
    return f"{base}_{N[0]}"


def Nm(x, store=False):
    return ast.Name(x, ast.Store() if store else ast.Load())


def assign(name, value):
    return ast.Assign([Nm(name, True)], value)


def targets(tree, names):
    for n in ast.walk(tree):
        if isinstance(n, ast.ClassDef):
            for m in n.body:
                if isinstance(m, ast.FunctionDef) and (not names or f"{n.name}.{m.name}" in names or m.name in names or n.name in names):
                    tag = ".setter" if any(isinstance(d, ast.Attribute) for d in m.decorator_list) else ""
                    yield f"{n.name}.{m.name}{tag}", m, n
    for n in tree.body:
        if isinstance(n, ast.FunctionDef) and (not names or n.name in names):
            yield n.name, n, None


def body0(fn):
    b = fn.body
    return 1 if b and isinstance(b[0], ast.Expr) and isinstance(b[0].value, ast.Constant) else 0


def own(fn):
    """Nodes of the function without nested function/class/lambda/comprehension scopes."""
    st = list(fn.body)
    while st:
        n = st.pop()
        yield n
        if isinstance(n, (ast.FunctionDef, ast.ClassDef, ast.Lambda)):
            continue
        st += list(ast.iter_child_nodes(n))


def blocks(fn):
    st = [fn]
    while st:
        n = st.pop()
        for f in ("body", "orelse", "finalbody"):
            b = getattr(n, f, None)
            if isinstance(b, list) and b and isinstance(b[0], ast.stmt):
                yield n, f, b
                st += [x for x in b if not isinstance(x, (ast.FunctionDef, ast.ClassDef))]
        for h in getattr(n, "handlers", []) or []:
            st.append(h)


def params(fn):
    a = fn.args
    return [x.arg for x in a.posonlyargs + a.args + a.kwonlyargs] + ([a.vararg.arg] if a.vararg else []) + ([a.kwarg.arg] if a.kwarg else [])


def local_names(fn):
    s = set(params(fn))
    for n in own(fn):
        if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
            s.add(n.id)
    return s


def free(e):
    return [n.id for n in ast.walk(e) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load)]


def has(e, *ts):
    return any(isinstance(n, ts) for n in ast.walk(e))


def big(e):
    return sum(1 for n in ast.walk(e) if isinstance(n, (ast.BinOp, ast.Call, ast.Compare, ast.BoolOp, ast.Subscript))) >= 2


# ---------------------------------------------------------------- transforms: f(fn, cls, tree, k) -> True if applied at site k (None = all sites)
def t_rename(fn, cls, tree, k):
    loc = local_names(fn) - set(params(fn))
    loc -= {n.name for n in own(fn) if isinstance(n, ast.ExceptHandler) and n.name}
    if any(isinstance(n, (ast.Global, ast.Nonlocal)) for n in ast.walk(fn)) or not loc:
        return False
    inner = set()
    for n in ast.walk(fn):
        if n is not fn and isinstance(n, (ast.FunctionDef, ast.Lambda)):
            inner |= set(params(n))
            inner |= {x.id for x in ast.walk(n) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)}
    loc -= inner
    for n in ast.walk(fn):
        if isinstance(n, ast.Name) and n.id in loc:
            n.id = "renamed_" + n.id
    return bool(loc)


def per_block(test):
    """test(block, i, fn, cls, tree) -> replacement list or None"""
    def f(fn, cls, tree, k):
        c, done = 0, False
        moved = set()
        for _, _, b in list(blocks(fn)):
            if id(b) in moved:
                continue
            i = body0(fn) if b is fn.body else 0
            while i < len(b):
                old = b[i]
                r = test(b, i, fn, cls, tree)
                if r is not None:
                    new, take = r
                    if test.__name__ == "b_extract_block":
                        moved |= {id(x) for _, _, x in blocks(ast.Module([old], []))}
                    if k is None or c == k:
                        b[i:i + take] = new
                        done = True
                        i += len(new) - 1
                    c += 1
                i += 1
        return done
    return f


def b_hoist(b, i, fn, cls, tree):
    s = b[i]
    if isinstance(s, ast.Return) and s.value is not None and not isinstance(s.value, (ast.Name, ast.Constant)):
        v = fresh("res")
        return [assign(v, s.value), ast.Return(Nm(v))], 1
    if isinstance(s, ast.Assign) and len(s.targets) == 1 and not isinstance(s.value, (ast.Name, ast.Constant)) and not isinstance(s.targets[0], ast.Name):
        v = fresh("val")
        return [assign(v, s.value), ast.Assign(s.targets, Nm(v))], 1


def b_hoistarg(b, i, fn, cls, tree):
    """move the first-evaluated pure argument of a call into a variable"""
    s = b[i]
    if isinstance(s, (ast.Assign, ast.Return, ast.Expr)) and isinstance(s.value, ast.Call) and s.value.args:
        a = s.value.args[0]
        if isinstance(a, (ast.BinOp, ast.Subscript, ast.Call, ast.Attribute, ast.Compare, ast.BoolOp)) and (isinstance(s.value.func, (ast.Name,)) or isinstance(s.value.func, ast.Attribute) and isinstance(s.value.func.value, ast.Name)):
            v = fresh("arg")
            s.value.args[0] = Nm(v)
            return [assign(v, a), s], 1


def b_split_binop(b, i, fn, cls, tree):
    s = b[i]
    if isinstance(s, (ast.Assign, ast.Return)) and isinstance(s.value, ast.BinOp) and not isinstance(s.value.left, (ast.Name, ast.Constant)):
        v = fresh("lhs")
        l = s.value.left
        s.value.left = Nm(v)
        return [assign(v, l), s], 1


def b_inline(b, i, fn, cls, tree):
    s = b[i]
    if isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Name) and i + 1 < len(b):
        nm = s.targets[0].id
        uses = [n for n in ast.walk(fn) if isinstance(n, ast.Name) and n.id == nm]
        nxt = b[i + 1]
        if not isinstance(nxt, (ast.Assign, ast.Return, ast.Expr, ast.AugAssign)):
            return None
        inn = [n for n in ast.walk(nxt) if isinstance(n, ast.Name) and n.id == nm and isinstance(n.ctx, ast.Load)]
        if len(uses) == 2 and len(inn) == 1 and not has(nxt, ast.Lambda, ast.ListComp, ast.GeneratorExp, ast.DictComp, ast.IfExp, ast.BoolOp):
            class R(ast.NodeTransformer):
                def visit_Name(self, n):
                    return s.value if n is inn[0] else n
            return [R().visit(nxt)], 2


def neg(c):
    if isinstance(c, ast.UnaryOp) and isinstance(c.op, ast.Not):
        return c.operand
    if isinstance(c, ast.Compare) and len(c.ops) == 1:
        inv = {ast.Is: ast.IsNot, ast.IsNot: ast.Is, ast.Eq: ast.NotEq, ast.NotEq: ast.Eq, ast.In: ast.NotIn, ast.NotIn: ast.In}
        t = type(c.ops[0])
        if t in inv:
            return ast.Compare(c.left, [inv[t]()], c.comparators)
    return ast.UnaryOp(ast.Not(), c)


def b_invert(b, i, fn, cls, tree):
    s = b[i]
    if isinstance(s, ast.If) and s.orelse:
        return [ast.If(neg(s.test), s.orelse, s.body)], 1


def ends(b):
    return bool(b) and (isinstance(b[-1], (ast.Return, ast.Raise, ast.Continue, ast.Break)) or isinstance(b[-1], ast.If) and b[-1].orelse and ends(b[-1].body) and ends(b[-1].orelse))


def b_else(b, i, fn, cls, tree):
    s = b[i]
    if isinstance(s, ast.If) and not s.orelse and ends(s.body) and i + 1 < len(b):
        return [ast.If(s.test, s.body, b[i + 1:])], len(b) - i


def b_dedent(b, i, fn, cls, tree):
    s = b[i]
    if isinstance(s, ast.If) and s.orelse and ends(s.body):
        return [ast.If(s.test, s.body, []), *s.orelse], 1


def b_comp2loop(b, i, fn, cls, tree):
    s = b[i]
    if isinstance(s, (ast.Assign, ast.Return)) and isinstance(s.value, (ast.ListComp, ast.DictComp)) and (isinstance(s, ast.Return) or len(s.targets) == 1):
        v = fresh("acc")
        c = s.value
        if isinstance(c, ast.ListComp):
            inner = [ast.Expr(ast.Call(ast.Attribute(Nm(v), "append", ast.Load()), [c.elt], []))]
            init = ast.List([], ast.Load())
        else:
            inner = [ast.Assign([ast.Subscript(Nm(v), c.key, ast.Store())], c.value)]
            init = ast.Dict([], [])
        names = local_names(fn)
        for g in reversed(c.generators):
            if any(n.id in names for n in ast.walk(g.target) if isinstance(n, ast.Name)):
                return None
            for t in reversed(g.ifs):
                inner = [ast.If(t, inner, [])]
            inner = [ast.For(g.target, g.iter, inner, [])]
        s.value = Nm(v)
        return [assign(v, init), *inner, s], 1


def b_loop2comp(b, i, fn, cls, tree):
    s = b[i]
    if i + 1 < len(b) and isinstance(s, ast.Assign) and isinstance(s.value, ast.List) and not s.value.elts and isinstance(s.targets[0], ast.Name):
        nm = s.targets[0].id
        f = b[i + 1]
        if isinstance(f, ast.For) and not f.orelse and len(f.body) == 1 and isinstance(f.body[0], ast.Expr) and isinstance(f.body[0].value, ast.Call):
            c = f.body[0].value
            if isinstance(c.func, ast.Attribute) and c.func.attr == "append" and isinstance(c.func.value, ast.Name) and c.func.value.id == nm and nm not in free(c.args[0]):
                tn = {n.id for n in ast.walk(f.target) if isinstance(n, ast.Name)}
                later = [n for st in b[i + 2:] for n in ast.walk(st) if isinstance(n, ast.Name) and n.id in tn and isinstance(n.ctx, ast.Load)]
                if later:
                    return None
                return [ast.Assign(s.targets, ast.ListComp(c.args[0], [ast.comprehension(f.target, f.iter, [], 0)]))], 2


def b_aug(b, i, fn, cls, tree):
    s = b[i]
    if isinstance(s, ast.AugAssign) and isinstance(s.target, (ast.Subscript, ast.Attribute)) or isinstance(s, ast.AugAssign) and isinstance(s.value, ast.Constant):
        t = copy.deepcopy(s.target)
        for n in ast.walk(t):
            if isinstance(n, (ast.Name, ast.Attribute, ast.Subscript)):
                n.ctx = ast.Load()
        return [ast.Assign([s.target], ast.BinOp(t, s.op, s.value))], 1


def helper_parts(fn, cls, exprs_or_stmts):
    loc = local_names(fn)
    used = []
    for e in exprs_or_stmts:
        comp = {n.id for c in ast.walk(e) if isinstance(c, ast.comprehension) for n in ast.walk(c.target) if isinstance(n, ast.Name)}
        comp |= {a.arg for c in ast.walk(e) if isinstance(c, ast.Lambda) for a in c.args.args}
        for x in free(e):
            if x in loc and x not in used and x not in comp:
                used.append(x)
    return used


def mk_helper(fn, cls, tree, used, body, method):
    nm = fresh("_helper")
    if method and cls is not None and "self" in used:
        rest = [u for u in used if u != "self"]
        h = ast.FunctionDef(nm, ast.arguments([], [ast.arg("self")] + [ast.arg(u) for u in rest], None, [], [], None, []), body, [], lineno=1)
        cls.body.append(h)
        call = ast.Call(ast.Attribute(Nm("self"), nm, ast.Load()), [Nm(u) for u in rest], [])
    else:
        h = ast.FunctionDef(nm, ast.arguments([], [ast.arg(u) for u in used], None, [], [], None, []), body, [], lineno=1)
        # module-level helper after imports/docstring, before the first class or function
        j = next((j for j, s in enumerate(tree.body) if isinstance(s, (ast.ClassDef, ast.FunctionDef))), len(tree.body))
        tree.body.insert(j, h)
        call = ast.Call(Nm(nm), [Nm(u) for u in used], [])
    return call


def mk_extract(method):
    def b_extract(b, i, fn, cls, tree):
        s = b[i]
        if not (isinstance(s, (ast.Assign, ast.Return)) and s.value is not None and big(s.value)):
            return None
        if has(s.value, ast.Yield, ast.Await, ast.NamedExpr) or any(isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id in ("super", "locals") for n in ast.walk(s.value)):
            return None
        if method and "self" not in helper_parts(fn, cls, [s.value]):
            return None
        nested = {n.name for n in own(fn) if isinstance(n, ast.FunctionDef)}
        if nested & set(free(s.value)):
            return None
        imps = {(a.asname or a.name).split(".")[0] for n in own(fn) if isinstance(n, (ast.Import, ast.ImportFrom)) for a in n.names}
        if imps & set(free(s.value)) or has(s.value, ast.Attribute) and any(isinstance(n, ast.Attribute) and n.attr.startswith("__") for n in ast.walk(s.value)):
            return None
        used = helper_parts(fn, cls, [s.value])
        s.value = mk_helper(fn, cls, tree, used, [ast.Return(s.value)], method)
        return [s], 1
    return b_extract


def stores(ss):
    out = []
    for s in ss:
        for n in ast.walk(s):
            if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store) and n.id not in out:
                out.append(n.id)
    return out


def mk_extract_block(method):
    def b_extract_block(b, i, fn, cls, tree):
        """move an if/for statement (no return/break) into a helper that returns the variables it sets"""
        s = b[i]
        if not isinstance(s, (ast.If, ast.For)) or fn.name == "__init__" and not method:
            return None
        if any(isinstance(n, (ast.Return, ast.Yield, ast.Break, ast.Continue, ast.FunctionDef, ast.Import, ast.ImportFrom, ast.Try, ast.With, ast.Delete)) for n in ast.walk(s)):
            return None
        if any(isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id in ("super", "locals") for n in ast.walk(s)):
            return None
        if any(isinstance(n, ast.Attribute) and n.attr.startswith("__") and not n.attr.endswith("__") for n in ast.walk(s)):
            return None
        imps = {(a.asname or a.name).split(".")[0] for n in own(fn) if isinstance(n, (ast.Import, ast.ImportFrom)) for a in n.names}
        nested = {n.name for n in own(fn) if isinstance(n, ast.FunctionDef)}
        if (imps | nested) & set(free(s)):
            return None
        if method and "self" not in free(s):
            return None
        # names bound before the statement for sure (params or top-level statements of this block preceding)
        bound = set(params(fn))
        for p in b[:i]:
            bound |= set(stores([p])) if isinstance(p, (ast.Assign, ast.AugAssign)) else set()
        st = stores([s])
        comps = {n.id for c in ast.walk(s) if isinstance(c, ast.comprehension) for n in ast.walk(c.target) if isinstance(n, ast.Name)}
        st = [x for x in st if x not in comps]
        after = {x for p in b[i + 1:] for x in free(p)}
        if b is not fn.body:
            after |= {x for x in free(fn)}
        out = [x for x in st if x in after]
        if any(x not in bound for x in out):
            return None
        used = [u for u in helper_parts(fn, cls, [s]) if u in bound]
        if any(u not in bound and u not in st for u in helper_parts(fn, cls, [s])):
            return None
        used += [x for x in out if x not in used]
        body = [s]
        if out:
            body.append(ast.Return(Nm(out[0]) if len(out) == 1 else ast.Tuple([Nm(x) for x in out], ast.Load())))
        call = mk_helper(fn, cls, tree, used, body, method)
        if not out:
            return [ast.Expr(call)], 1
        tgt = Nm(out[0], True) if len(out) == 1 else ast.Tuple([Nm(x, True) for x in out], ast.Store())
        return [ast.Assign([tgt], call)], 1
    return b_extract_block


def b_items(b, i, fn, cls, tree):
    s = b[i]
    if isinstance(s, ast.For) and isinstance(s.iter, ast.Call) and isinstance(s.iter.func, ast.Attribute) and s.iter.func.attr == "items" and isinstance(s.iter.func.value, (ast.Name, ast.Attribute)) \
            and isinstance(s.target, ast.Tuple) and all(isinstance(e, ast.Name) for e in s.target.elts):
        kx, vx = s.target.elts
        d = s.iter.func.value
        if has(d, ast.Call):
            return None
        return [ast.For(kx, d, [ast.Assign([vx], ast.Subscript(copy.deepcopy(d), Nm(kx.id), ast.Load())), *s.body], s.orelse)], 1


def b_enum_add(b, i, fn, cls, tree):
    s = b[i]
    if isinstance(s, ast.For) and isinstance(s.iter, (ast.Name, ast.Attribute)) and isinstance(s.target, ast.Name):
        return [ast.For(ast.Tuple([Nm(fresh("unused"), True), s.target], ast.Store()), ast.Call(Nm("enumerate"), [s.iter], []), s.body, s.orelse)], 1


def b_enum_range(b, i, fn, cls, tree):
    s = b[i]
    if isinstance(s, ast.For) and isinstance(s.iter, ast.Call) and isinstance(s.iter.func, ast.Name) and s.iter.func.id == "enumerate" and isinstance(s.iter.args[0], ast.Name) \
            and isinstance(s.target, ast.Tuple) and isinstance(s.target.elts[0], ast.Name):
        x = s.iter.args[0].id
        ix, tv = s.target.elts
        return [ast.For(ix, ast.Call(Nm("range"), [ast.Call(Nm("len"), [Nm(x)], [])], []), [ast.Assign([tv], ast.Subscript(Nm(x), Nm(ix.id), ast.Load())), *s.body], s.orelse)], 1


def b_while(b, i, fn, cls, tree):
    s = b[i]
    if isinstance(s, ast.For) and isinstance(s.iter, ast.Call) and isinstance(s.iter.func, ast.Name) and s.iter.func.id == "range" and len(s.iter.args) == 1 and isinstance(s.target, ast.Name) \
            and isinstance(s.iter.args[0], (ast.Name, ast.Attribute)) and not has(s, ast.Continue) and not s.orelse:
        ix = s.target.id
        return [assign(ix, ast.Constant(0)), ast.While(ast.Compare(Nm(ix), [ast.Lt()], [s.iter.args[0]]), [*s.body, ast.AugAssign(Nm(ix, True), ast.Add(), ast.Constant(1))], [])], 1


def b_ternary2if(b, i, fn, cls, tree):
    s = b[i]
    if isinstance(s, ast.Assign) and isinstance(s.value, ast.IfExp):
        e = s.value
        return [ast.If(e.test, [ast.Assign(copy.deepcopy(s.targets), e.body)], [ast.Assign(copy.deepcopy(s.targets), e.orelse)])], 1
    if isinstance(s, ast.Return) and isinstance(s.value, ast.IfExp):
        e = s.value
        return [ast.If(e.test, [ast.Return(e.body)], []), ast.Return(e.orelse)], 1


def b_if2ternary(b, i, fn, cls, tree):
    s = b[i]
    if isinstance(s, ast.If) and len(s.body) == 1 and len(s.orelse) == 1 and isinstance(s.body[0], ast.Assign) and isinstance(s.orelse[0], ast.Assign):
        x, y = s.body[0], s.orelse[0]
        if ast.dump(x.targets[0]) == ast.dump(y.targets[0]) and isinstance(x.targets[0], ast.Name):
            return [ast.Assign(x.targets, ast.IfExp(s.test, x.value, y.value))], 1
    if isinstance(s, ast.If) and len(s.body) == 1 and isinstance(s.body[0], ast.Return) and s.body[0].value is not None and not s.orelse and i + 1 < len(b) and isinstance(b[i + 1], ast.Return) and b[i + 1].value is not None:
        return [ast.Return(ast.IfExp(s.test, s.body[0].value, b[i + 1].value))], 2


def b_nest(b, i, fn, cls, tree):
    s = b[i]
    if isinstance(s, ast.If) and isinstance(s.test, ast.BoolOp) and isinstance(s.test.op, ast.And) and not s.orelse:
        v = s.test.values
        rest = v[1] if len(v) == 2 else ast.BoolOp(ast.And(), v[1:])
        return [ast.If(v[0], [ast.If(rest, s.body, [])], [])], 1
    if isinstance(s, ast.If) and isinstance(s.test, ast.BoolOp) and isinstance(s.test.op, ast.Or) and not s.orelse and ends(s.body):
        v = s.test.values
        return [ast.If(x, copy.deepcopy(s.body), []) for x in v], 1


def b_unnest(b, i, fn, cls, tree):
    s = b[i]
    if isinstance(s, ast.If) and not s.orelse and len(s.body) == 1 and isinstance(s.body[0], ast.If) and not s.body[0].orelse:
        return [ast.If(ast.BoolOp(ast.And(), [s.test, s.body[0].test]), s.body[0].body, [])], 1


def b_flag(b, i, fn, cls, tree):
    s = b[i]
    if isinstance(s, ast.If) and not isinstance(s.test, ast.Name):
        v = fresh("cond")
        t = s.test
        s.test = Nm(v)
        return [assign(v, t), s], 1


def b_swap(b, i, fn, cls, tree):
    if i + 1 < len(b):
        x, y = b[i], b[i + 1]
        if all(isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], (ast.Name, ast.Attribute)) for s in (x, y)):
            def pure(e):
                return not has(e, ast.Call, ast.Yield) and not has(e, ast.Subscript)
            if pure(x.value) and pure(y.value):
                dx, dy = ast.dump(x.targets[0]).replace("Store", "Load"), ast.dump(y.targets[0]).replace("Store", "Load")
                if dx not in ast.dump(y) and dy not in ast.dump(x) and dx != dy:
                    return [y, x], 2


def b_unpack(b, i, fn, cls, tree):
    s = b[i]
    if isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Tuple) and isinstance(s.value, ast.Call) and not any(isinstance(e, ast.Starred) for e in s.targets[0].elts):
        v = fresh("parts")
        return [assign(v, s.value)] + [ast.Assign([e], ast.Subscript(Nm(v), ast.Constant(j), ast.Load())) for j, e in enumerate(s.targets[0].elts)], 1


def b_contin(b, i, fn, cls, tree):
    s = b[i]
    if isinstance(s, ast.For) and len(s.body) == 1 and isinstance(s.body[0], ast.If) and not s.body[0].orelse:
        f = s.body[0]
        s.body = [ast.If(neg(f.test), [ast.Continue()], []), *f.body]
        return [s], 1


def b_chain(b, i, fn, cls, tree):
    s = b[i]
    if isinstance(s, (ast.Assign, ast.Return)) and isinstance(s.value, ast.Call) and isinstance(s.value.func, ast.Attribute) and isinstance(s.value.func.value, (ast.Call, ast.Subscript)):
        if isinstance(s.value.func.value, ast.Call) and isinstance(s.value.func.value.func, ast.Name) and s.value.func.value.func.id == "super":
            return None
        v = fresh("recv")
        r = s.value.func.value
        s.value.func.value = Nm(v)
        return [assign(v, r), s], 1


def b_noop(b, i, fn, cls, tree):
    if i == (body0(fn) if b is fn.body else 0):
        return [ast.Pass(), ast.If(ast.Constant(False), [ast.Pass()], []), assign(fresh("_unused"), ast.Constant(None)), b[i]], 1


def b_assert(b, i, fn, cls, tree):
    s = b[i]
    if isinstance(s, ast.If) and not s.orelse and len(s.body) == 1 and isinstance(s.body[0], ast.Raise) and isinstance(s.body[0].exc, ast.Call):
        v = fresh("msg")
        e = s.body[0].exc
        if e.args:
            a = e.args[0]
            e.args[0] = Nm(v)
            s.body = [assign(v, a), s.body[0]]
            return [s], 1


def b_raise_helper(b, i, fn, cls, tree):
    """validation moved to a helper"""
    s = b[i]
    if isinstance(s, ast.If) and not s.orelse and len(s.body) == 1 and isinstance(s.body[0], ast.Raise):
        used = helper_parts(fn, cls, [s])
        imps = {(a.asname or a.name).split(".")[0] for n in own(fn) if isinstance(n, (ast.Import, ast.ImportFrom)) for a in n.names}
        nested = {n.name for n in own(fn) if isinstance(n, ast.FunctionDef)}
        if (imps | nested) & set(free(s)) or any(isinstance(n, ast.ExceptHandler) for n in own(fn)):
            return None
        if any(isinstance(n, ast.Attribute) and n.attr.startswith("__") and not n.attr.endswith("__") for n in ast.walk(s)):
            return None
        return [ast.Expr(mk_helper(fn, cls, tree, used, [s], True))], 1


def per_expr(test):
    def f(fn, cls, tree, k):
        c = [0]
        done = [False]

        class T(ast.NodeTransformer):
            def generic_visit(self, n):
                super().generic_visit(n)
                if isinstance(n, ast.expr):
                    r = test(n, fn)
                    if r is not None:
                        hit = k is None or c[0] == k
                        c[0] += 1
                        if hit:
                            done[0] = True
                            return r
                return n
        t = T()
        j = body0(fn)
        fn.body[j:] = [t.visit(s) for s in fn.body[j:]]
        return done[0]
    return f


def e_cmp(n, fn):
    if isinstance(n, ast.Compare) and len(n.ops) == 1:
        m = {ast.Lt: ast.Gt, ast.Gt: ast.Lt, ast.LtE: ast.GtE, ast.GtE: ast.LtE, ast.Eq: ast.Eq, ast.NotEq: ast.NotEq}
        t = type(n.ops[0])
        if t in m:
            return ast.Compare(n.comparators[0], [m[t]()], [n.left])


def e_not(n, fn):
    if isinstance(n, ast.Compare) and len(n.ops) == 1:
        m = {ast.Is: ast.IsNot, ast.IsNot: ast.Is, ast.In: ast.NotIn, ast.NotIn: ast.In}
        t = type(n.ops[0])
        if t in m:
            return ast.UnaryOp(ast.Not(), ast.Compare(n.left, [m[t]()], n.comparators))


def e_demorgan(n, fn):
    if isinstance(n, ast.BoolOp):
        o = ast.And() if isinstance(n.op, ast.Or) else ast.Or()
        if all(isinstance(v, (ast.Compare, ast.UnaryOp)) or isinstance(v, ast.Call) and isinstance(v.func, ast.Name) and v.func.id in ("isinstance", "callable", "hasattr") for v in n.values):
            return ast.UnaryOp(ast.Not(), ast.BoolOp(o, [neg(v) for v in n.values]))


def e_mulcomm(n, fn):
    if isinstance(n, ast.BinOp) and isinstance(n.op, ast.Mult) and not has(n, ast.List, ast.JoinedStr) and not any(isinstance(x, ast.Constant) and isinstance(x.value, str) for x in ast.walk(n)):
        return ast.BinOp(n.right, n.op, n.left)


def e_subneg(n, fn):
    if isinstance(n, ast.BinOp) and isinstance(n.op, ast.Sub) and isinstance(n.right, (ast.Name, ast.Attribute, ast.Constant)) and not has(n, ast.Set):
        return ast.BinOp(n.left, ast.Add(), ast.UnaryOp(ast.USub(), n.right))


def e_kwrev(n, fn):
    if isinstance(n, ast.Call) and len([k for k in n.keywords if k.arg]) > 1 and all(not has(k.value, ast.Call) for k in n.keywords):
        return ast.Call(n.func, n.args, list(reversed([k for k in n.keywords if k.arg])) + [k for k in n.keywords if not k.arg])


def e_len(n, fn):
    if isinstance(n, ast.Compare) and len(n.ops) == 1 and isinstance(n.left, ast.Call) and isinstance(n.left.func, ast.Name) and n.left.func.id == "len" and isinstance(n.comparators[0], ast.Constant):
        v = n.comparators[0].value
        if isinstance(n.ops[0], ast.Eq) and v == 0:
            return ast.Compare(n.left, [ast.Lt()], [ast.Constant(1)])
        if isinstance(n.ops[0], ast.Gt) and v == 0:
            return ast.Compare(n.left, [ast.NotEq()], [ast.Constant(0)])


def e_sq(n, fn):
    if isinstance(n, ast.BinOp) and isinstance(n.op, ast.Pow) and isinstance(n.right, ast.Constant) and n.right.value == 2 and isinstance(n.left, (ast.Name, ast.Attribute)):
        return ast.BinOp(n.left, ast.Mult(), copy.deepcopy(n.left))


def e_lambda_id(n, fn):
    if isinstance(n, ast.IfExp):
        return ast.IfExp(neg(n.test), n.orelse, n.body)


def t_selfalias(fn, cls, tree, k):
    if cls is None or not fn.args.args or fn.args.args[0].arg != "self":
        return False
    st = {n.attr for n in ast.walk(fn) if isinstance(n, ast.Attribute) and isinstance(n.ctx, (ast.Store, ast.Del)) and isinstance(n.value, ast.Name) and n.value.id == "self"}
    if any(isinstance(n, ast.Call) for n in ast.walk(fn)) and fn.name == "__init__":
        return False
    cnt = collections.Counter(n.attr for n in ast.walk(fn) if isinstance(n, ast.Attribute) and isinstance(n.value, ast.Name) and n.value.id == "self" and isinstance(n.ctx, ast.Load))
    called = {n.func.attr for n in ast.walk(fn) if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and isinstance(n.func.value, ast.Name) and n.func.value.id == "self"}
    selfcalls = bool(called)
    c = [a for a, m in cnt.items() if m >= 2 and a not in st and a not in called and not selfcalls]
    if not c:
        return False
    # only when the first statement already reads it (so that the early read is safe)
    j = body0(fn)
    ok = []
    for a in c:
        first = fn.body[j]
        h = first.test if isinstance(first, ast.If) else first.iter if isinstance(first, ast.For) else first
        if any(isinstance(n, ast.Attribute) and n.attr == a for n in ast.walk(h)):
            ok.append(a)
    if not ok:
        return False

    class T(ast.NodeTransformer):
        def visit_Attribute(self, n):
            self.generic_visit(n)
            if n.attr in ok and isinstance(n.value, ast.Name) and n.value.id == "self":
                return Nm("my_" + n.attr)
            return n
    fn.body[j:] = [T().visit(s) for s in fn.body[j:]]
    fn.body[j:j] = [assign("my_" + a, ast.Attribute(Nm("self"), a, ast.Load())) for a in ok]
    return True


def t_wrap(fn, cls, tree, k):
    """the whole method body moved to a private helper method"""
    if cls is None or not fn.args.args or fn.args.args[0].arg != "self" or fn.decorator_list or has(fn, ast.Yield) or fn.args.kwarg or fn.args.vararg or fn.name.startswith("__"):
        return False
    if any(isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id in ("super", "locals") for n in ast.walk(fn)):
        return False
    j = body0(fn)
    nm = "_impl_" + fn.name
    ps = [a.arg for a in fn.args.args + fn.args.kwonlyargs if a.arg != "self"]
    h = ast.FunctionDef(nm, ast.arguments([], [ast.arg("self")] + [ast.arg(p) for p in ps], None, [], [], None, []), fn.body[j:], [], lineno=1)
    cls.body.append(h)
    fn.body[j:] = [ast.Return(ast.Call(ast.Attribute(Nm("self"), nm, ast.Load()), [Nm(p) for p in ps], []))]
    return True


KINDS = {
    "rename": t_rename, "selfalias": t_selfalias, "wrap": t_wrap,
    **{n: per_block(f) for n, f in {
        "hoist": b_hoist, "hoistarg": b_hoistarg, "splitbin": b_split_binop, "inline": b_inline, "invert": b_invert, "else": b_else, "dedent": b_dedent, "comp2loop": b_comp2loop,
        "loop2comp": b_loop2comp, "aug": b_aug, "extract": mk_extract(False), "extractm": mk_extract(True), "blockf": mk_extract_block(False), "blockm": mk_extract_block(True),
        "items": b_items, "enumadd": b_enum_add, "enumrange": b_enum_range, "while": b_while, "ternary2if": b_ternary2if, "if2ternary": b_if2ternary, "nest": b_nest, "unnest": b_unnest,
        "flag": b_flag, "swap": b_swap, "unpack": b_unpack, "contin": b_contin, "chain": b_chain, "noop": b_noop, "msg": b_assert, "check": b_raise_helper}.items()},
    **{n: per_expr(f) for n, f in {"cmp": e_cmp, "not": e_not, "demorgan": e_demorgan, "mul": e_mulcomm, "sub": e_subneg, "kwrev": e_kwrev, "len": e_len, "sq": e_sq, "ifexp": e_lambda_id}.items()},
}


def main():
    args = [a for a in sys.argv[1:] if not a.startswith("--")]
    opt = {a.split("=")[0]: (a.split("=") + [""])[1] for a in sys.argv[1:] if a.startswith("--")}
    props, rel, names = args[0].split(","), args[1], set(args[2:])
    kinds = opt["--kinds"].split(",") if "--kinds" in opt else list(KINDS)
    base = prog.Program()
    modname = next(m for m in base.mods if base.mods[m].rel.endswith(rel))
    mod = base.mods[modname]
    chks = {p: importlib.import_module("lcx.checks." + p.lower()) for p in props}

    if "C05" in chks:       # only what the edited file defines, once per definition
        all_entries = chks["C05"].entries

        def few(cx):
            seen, out = set(), []
            for c, f in sorted(all_entries(cx), key=lambda x: x[0] is not x[1].cls):
                if f.qual not in seen and f.mod.name == modname:
                    seen.add(f.qual)
                    out.append((c, f))
            return out
        chks["C05"].entries = few

    def run(src):
        orig = open

        def fake(p, *a, **k):
            if os.path.abspath(str(p)) == os.path.abspath(mod.path):
                return io.StringIO(src)
            return orig(p, *a, **k)

        out = {}
        for p in props:
            builtins.open = fake
            try:
                P = prog.Program()
            finally:
                builtins.open = orig
            cx = Cx(p, "quick", P)
            chks[p].run(cx)
            cx.flush(jobs=1)
            for o in cx.obs:
                if o[0] == "bad":
                    out[(p, o[2])] = o[4]
            nok = sum(o[0] == "ok" for o in cx.obs)
            out[(p, "#")] = (nok, sum(o[0] == "unknown" for o in cx.obs), len(cx.broken))
        return out

    b0 = run(mod.src)
    tree = ast.parse(mod.src)
    jobs = []
    src0 = ast.unparse(tree)
    for name, fn, cls in targets(tree, names):
        for kd in kinds:
            ks = [None]
            if "--each" in opt:
                ks = range(40)
            for k in ks:
                t2 = ast.parse(mod.src)
                _, f2, c2 = next((x for x in targets(t2, names) if x[0] == name))
                try:
                    ok = KINDS[kd](f2, c2, t2, k)
                except Exception as e:
                    print("TRANSFORM FAILED", name, kd, repr(e))
                    break
                if not ok:
                    break
                ast.fix_missing_locations(t2)
                s2 = ast.unparse(t2)
                if s2 != src0:
                    jobs.append((name, kd, k, s2))
    res, kids = [], []
    nproc = int(opt.get("--jobs", os.cpu_count() or 1))
    for q in range(nproc):
        r, w = os.pipe()
        pid = os.fork()
        if pid == 0:
            os.close(r)
            out = []
            for name, kd, k, s2 in jobs[q::nproc]:
                try:
                    o = run(s2)
                    nb = {kk: v for kk, v in o.items() if kk[1] != "#" and kk not in b0}
                    lost = {p: (b0[(p, "#")], o[(p, "#")]) for p in props if o[(p, "#")][0] < b0[(p, "#")][0] and not nb}
                except Exception as e:
                    nb, lost = {("EXC", repr(e)[:200]): ""}, {}
                out.append((name, kd, k, nb, lost, s2 if "--src" in opt else ""))
            with os.fdopen(w, "wb") as fh:
                fh.write(pickle.dumps(out))
            os._exit(0)
        os.close(w)
        kids.append((pid, r))
    for pid, r in kids:
        with os.fdopen(r, "rb") as fh:
            d = fh.read()
        res += pickle.loads(d) if d else [("?", "CRASH", None, {("EXC", "worker died"): ""}, {}, "")]
        os.waitpid(pid, 0)
    c = collections.Counter()
    for name, kd, k, nb, lost, s2 in sorted(res, key=lambda x: (x[0], x[1], x[2] or 0)):
        c["ALARM" if nb else "lost" if lost else "quiet"] += 1
        if nb:
            print(f"ALARM {name} [{kd}{'' if k is None else ':' + str(k)}] " + "; ".join(f"{a[0]} {a[1]}: {m[:int(opt.get('--w', 160))]}" for a, m in list(nb.items())[:2]))
            if s2:
                print(s2)
        elif lost and "--lost" in opt:
            print(f"lost  {name} [{kd}] {lost}")
    print(rel, dict(c))


main()
