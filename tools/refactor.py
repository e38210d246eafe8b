"""Rewrites /repo's source in behaviour-preserving ways and reports where the
units stop being quiet.

refactor.py [-t transform,..] [-f file,..] [-s site] [-v] [-o DIR]
"""
import argparse
import ast
import concurrent.futures as cf
import copy
import os
import shutil
import sys
import tempfile

R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, R)
SRC = "/repo/src"
T = {}


def transform(f):
    T[f.__name__] = f
    return f


class Sites:
    """counts the places a transform applies to; only those wanted are
    changed"""

    def __init__(self, want=None):
        self.want, self.n = want, 0
        self.lines = []

    def hit(self, node):
        i = self.n
        self.n += 1
        self.lines.append(getattr(node, "lineno", 0))
        return self.want is None or i in self.want


_k = [0]


def fresh(p="v"):
    _k[0] += 1
    return f"{p}_{_k[0]}x"


def name(n, ctx=None):
    return ast.Name(n, ctx or ast.Load())


def assign(n, v):
    return ast.Assign([name(n, ast.Store())], v)


def names(node, ctx=None):
    return {x.id for x in ast.walk(node) if isinstance(x, ast.Name)
            and (ctx is None or isinstance(x.ctx, ctx))}


def stored(stmts):
    out = set()
    for s in stmts:
        for x in ast.walk(s):
            if isinstance(x, ast.Name) and isinstance(x.ctx, (ast.Store,
                                                              ast.Del)):
                out.add(x.id)
            elif isinstance(x, (ast.FunctionDef, ast.ClassDef)):
                out.add(x.name)
            elif isinstance(x, ast.ExceptHandler) and x.name:
                out.add(x.name)
    return out


class Stmt(ast.NodeTransformer):
    """visits statement lists; sub-classes give block(list) -> list"""

    def __init__(self, sites):
        self.sites = sites
        self.fn = []

    def generic_visit(self, node):
        for f, v in ast.iter_fields(node):
            if isinstance(v, list) and v and isinstance(v[0], ast.stmt):
                pass
        if isinstance(node, ast.FunctionDef):
            self.fn.append(node)
        super().generic_visit(node)
        for f in ("body", "orelse", "finalbody"):
            v = getattr(node, f, None)
            if isinstance(v, list) and v and isinstance(v[0], ast.stmt) \
                    and self.fn:
                setattr(node, f, self.block(v, node))
        if isinstance(node, ast.FunctionDef):
            self.fn.pop()
        return node

    def block(self, body, parent):
        out = []
        for s in body:
            r = self.stmt(s)
            out.extend(r if isinstance(r, list) else [r])
        return out

    def stmt(self, s):
        return s


def terminal(body):
    s = body[-1]
    if isinstance(s, (ast.Return, ast.Raise, ast.Continue)):
        return True
    return isinstance(s, ast.If) and bool(s.orelse) and terminal(
        s.body) and terminal(s.orelse)


@transform
class flip_if(Stmt):
    def stmt(self, s):
        if isinstance(s, ast.If) and s.orelse and self.sites.hit(s):
            return ast.If(ast.UnaryOp(ast.Not(), s.test), s.orelse, s.body)
        return s


@transform
class drop_else(Stmt):
    def stmt(self, s):
        if isinstance(s, ast.If) and s.orelse and terminal(s.body) and \
                self.sites.hit(s):
            return [ast.If(s.test, s.body, [])] + s.orelse
        return s


@transform
class add_else(Stmt):
    def block(self, body, parent):
        for i, s in enumerate(body[:-1]):
            if isinstance(s, ast.If) and not s.orelse and terminal(s.body) \
                    and self.sites.hit(s):
                s.orelse = self.block(body[i + 1:], s)
                return body[:i + 1]
        return body


@transform
class nest_and(Stmt):
    def stmt(self, s):
        if isinstance(s, ast.If) and not s.orelse and isinstance(
                s.test, ast.BoolOp) and isinstance(s.test.op, ast.And) \
                and self.sites.hit(s):
            b = s.body
            for t in reversed(s.test.values):
                b = [ast.If(t, b, [])]
            return b[0]
        return s


@transform
class guard_continue(Stmt):
    def stmt(self, s):
        if isinstance(s, ast.For) and len(s.body) == 1 and isinstance(
                s.body[0], ast.If) and not s.body[0].orelse and \
                self.sites.hit(s):
            i = s.body[0]
            s.body = [ast.If(ast.UnaryOp(ast.Not(), i.test),
                             [ast.Continue()], [])] + i.body
        return s


@transform
class ret_var(Stmt):
    def stmt(self, s):
        if isinstance(s, ast.Return) and s.value is not None and \
                self.sites.hit(s):
            n = fresh("result")
            return [assign(n, s.value), ast.Return(name(n))]
        return s


@transform
class aug(Stmt):
    def stmt(self, s):
        if isinstance(s, ast.AugAssign) and isinstance(
                s.target, ast.Name) and self.sites.hit(s):
            return assign(s.target.id, ast.BinOp(name(s.target.id), s.op,
                                                 s.value))
        return s


@transform
class pair_loop(Stmt):
    def stmt(self, s):
        if isinstance(s, ast.For) and isinstance(
                s.target, ast.Tuple) and self.sites.hit(s):
            n = fresh("item")
            s.body = [ast.Assign([s.target], name(n))] + s.body
            s.target = name(n, ast.Store())
        return s


@transform
class items_loop(Stmt):
    def stmt(self, s):
        if isinstance(s, ast.For) and isinstance(s.iter, ast.Call) and \
                isinstance(s.iter.func, ast.Attribute) and \
                s.iter.func.attr == "items" and not s.iter.args and \
                isinstance(s.target, ast.Tuple) and \
                isinstance(s.target.elts[0], ast.Name) and \
                self.sites.hit(s):
            d = s.iter.func.value
            k, v = s.target.elts
            s.body = [ast.Assign([v], ast.Subscript(
                copy.deepcopy(d), name(k.id), ast.Load()))] + s.body
            s.target = k
            s.iter = d
        return s


@transform
class list_iter(Stmt):
    def stmt(self, s):
        if isinstance(s, ast.For) and self.sites.hit(s):
            s.iter = ast.Call(name("list"), [s.iter], [])
        return s


@transform
class product_loop(Stmt):
    def stmt(self, s):
        if isinstance(s, ast.For) and len(s.body) == 1 and isinstance(
                s.body[0], ast.For) and not (
                stored([s]) & names(s.body[0].iter)) and self.sites.hit(s):
            t = s.body[0]
            s.target = ast.Tuple([s.target, t.target], ast.Store())
            s.iter = ast.Call(ast.Attribute(ast.Call(
                name("__import__"), [ast.Constant("itertools")], []),
                "product", ast.Load()), [s.iter, t.iter], [])
            s.iter.func = ast.Attribute(name("itertools"), "product",
                                        ast.Load())
            s.body = t.body
            self.imports = ["itertools"]
        return s


@transform
class while_range(Stmt):
    def stmt(self, s):
        if isinstance(s, ast.For) and isinstance(s.iter, ast.Call) and \
                isinstance(s.iter.func, ast.Name) and s.iter.func.id == \
                "range" and len(s.iter.args) == 1 and not any(
                    isinstance(x, ast.Continue) for x in ast.walk(s)) \
                and isinstance(s.target, ast.Name) and self.sites.hit(s):
            v = s.target.id
            return [assign(v, ast.Constant(0)),
                    ast.While(ast.Compare(name(v), [ast.Lt()],
                                          [s.iter.args[0]]),
                              s.body + [ast.AugAssign(
                                  name(v, ast.Store()), ast.Add(),
                                  ast.Constant(1))], [])]
        return s


class Find(ast.NodeTransformer):
    """replaces the sub-expressions evaluated exactly once, always, when the
    statement is; pick(node) -> replacement or None"""

    def __init__(self, pick):
        self.pick = pick

    def visit(self, n):
        r = self.pick(n)
        if r is not None:
            return r
        if isinstance(n, (ast.Lambda, ast.FunctionDef, ast.ClassDef)):
            return n
        if isinstance(n, ast.IfExp):
            n.test = self.visit(n.test)
            return n
        if isinstance(n, ast.BoolOp):
            n.values[0] = self.visit(n.values[0])
            return n
        if isinstance(n, ast.Compare) and len(n.ops) > 1:
            return n
        if isinstance(n, (ast.ListComp, ast.SetComp, ast.GeneratorExp,
                          ast.DictComp)):
            n.generators[0].iter = self.visit(n.generators[0].iter)
            return n
        if isinstance(n, (ast.If, ast.While)):
            if isinstance(n, ast.If):
                n.test = self.visit(n.test)
            return n
        if isinstance(n, (ast.For,)):
            n.iter = self.visit(n.iter)
            return n
        if isinstance(n, (ast.Try, ast.With)):
            return n
        return self.generic_visit(n)


def ren(node, m):
    node = copy.deepcopy(node)
    for x in ast.walk(node):
        if isinstance(x, ast.Name) and x.id in m:
            x.id = m[x.id]
    return node


def loops(gens, inner):
    b = inner
    for g in reversed(gens):
        for c in reversed(g.ifs):
            b = [ast.If(c, b, [])]
        b = [ast.For(g.target, g.iter, b, [])]
    return b


def is_sum(n):
    return isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and \
        n.func.id == "sum" and len(n.args) == 1 and isinstance(
            n.args[0], (ast.GeneratorExp, ast.ListComp))


@transform
class comp_loop(Stmt):
    """comprehensions and sums written as loops in front"""

    def stmt(self, s):
        pre = []

        def pick(n):
            comp = None
            if is_sum(n):
                comp, kind = n.args[0], "sum"
            elif isinstance(n, ast.ListComp):
                comp, kind = n, "list"
            elif isinstance(n, ast.DictComp):
                comp, kind = n, "dict"
            elif isinstance(n, ast.SetComp):
                comp, kind = n, "set"
            if comp is None or not self.sites.hit(n):
                return None
            m = {x: x + "_l" for g in comp.generators
                 for x in names(g.target)}
            g0 = copy.deepcopy(comp.generators[0].iter)
            comp = ren(comp, m)
            comp.generators[0].iter = g0
            a = fresh("acc")
            if kind == "sum":
                pre.append(assign(a, ast.Constant(0)))
                b = ast.AugAssign(name(a, ast.Store()), ast.Add(), comp.elt)
            elif kind == "list":
                pre.append(assign(a, ast.List([], ast.Load())))
                b = ast.Expr(ast.Call(ast.Attribute(
                    name(a), "append", ast.Load()), [comp.elt], []))
            elif kind == "set":
                pre.append(assign(a, ast.Call(name("set"), [], [])))
                b = ast.Expr(ast.Call(ast.Attribute(
                    name(a), "add", ast.Load()), [comp.elt], []))
            else:
                pre.append(assign(a, ast.Dict([], [])))
                b = ast.Assign([ast.Subscript(name(a), comp.key,
                                              ast.Store())], comp.value)
            pre.extend(loops(comp.generators, [b]))
            return name(a)
        if isinstance(s, (ast.FunctionDef, ast.ClassDef)):
            return s
        s = Find(pick).visit(s)
        return pre + [s]


@transform
class loop_comp(Stmt):
    """x = []; for ..: x.append(e)  ->  x = [e for ..]"""

    def block(self, body, parent):
        out = []
        for s in body:
            if isinstance(s, ast.For) and out and isinstance(
                    out[-1], ast.Assign) and len(out[-1].targets) == 1 and \
                    isinstance(out[-1].targets[0], ast.Name):
                gens, b = [], [s]
                while len(b) == 1 and isinstance(b[0], (ast.For, ast.If)) \
                        and not b[0].orelse:
                    if isinstance(b[0], ast.For):
                        gens.append(ast.comprehension(
                            b[0].target, b[0].iter, [], 0))
                    else:
                        gens[-1].ifs.append(b[0].test)
                    b = b[0].body
                x = out[-1].targets[0].id
                v = out[-1].value
                if len(b) == 1:
                    c = b[0]
                    if isinstance(v, ast.List) and not v.elts and isinstance(
                            c, ast.Expr) and isinstance(
                            c.value, ast.Call) and isinstance(
                            c.value.func, ast.Attribute) and \
                            c.value.func.attr == "append" and isinstance(
                            c.value.func.value, ast.Name) and \
                            c.value.func.value.id == x and \
                            self.sites.hit(s):
                        out[-1] = assign(x, ast.ListComp(
                            c.value.args[0], gens))
                        continue
                    if isinstance(v, ast.Constant) and v.value == 0 and \
                            isinstance(c, ast.AugAssign) and isinstance(
                            c.op, ast.Add) and isinstance(
                            c.target, ast.Name) and c.target.id == x and \
                            self.sites.hit(s):
                        out[-1] = assign(x, ast.Call(name("sum"), [
                            ast.GeneratorExp(c.value, gens)], []))
                        continue
            out.append(s)
        return out


@transform
class aug_sum(Stmt):
    """for ..: x += e  ->  x += sum(e for ..)"""

    def stmt(self, s):
        if not isinstance(s, ast.For):
            return s
        gens, b = [], [s]
        while len(b) == 1 and isinstance(b[0], (ast.For, ast.If)) \
                and not b[0].orelse:
            if isinstance(b[0], ast.For):
                gens.append(ast.comprehension(b[0].target, b[0].iter, [], 0))
            else:
                gens[-1].ifs.append(b[0].test)
            b = b[0].body
        if len(b) == 1 and isinstance(b[0], ast.AugAssign) and isinstance(
                b[0].op, ast.Add) and isinstance(b[0].target, ast.Name) \
                and self.sites.hit(s):
            return ast.AugAssign(b[0].target, ast.Add(), ast.Call(
                name("sum"), [ast.GeneratorExp(b[0].value, gens)], []))
        return s


@transform
class ifexp_stmt(Stmt):
    def stmt(self, s):
        if isinstance(s, (ast.Assign, ast.Return)) and isinstance(
                s.value, ast.IfExp) and self.sites.hit(s):
            a, b = copy.copy(s), copy.copy(s)
            a.value, b.value = s.value.body, s.value.orelse
            return ast.If(s.value.test, [a], [b])
        return s


@transform
class stmt_ifexp(Stmt):
    def stmt(self, s):
        if isinstance(s, ast.If) and len(s.body) == len(s.orelse) == 1 and \
                isinstance(s.body[0], ast.Assign) and isinstance(
                s.orelse[0], ast.Assign) and ast.dump(
                s.body[0].targets[0]) == ast.dump(s.orelse[0].targets[0]) \
                and self.sites.hit(s):
            return ast.Assign(s.body[0].targets, ast.IfExp(
                s.test, s.body[0].value, s.orelse[0].value))
        return s


@transform
class hoist_args(Stmt):
    def stmt(self, s):
        pre = []
        if isinstance(s, (ast.Assign, ast.Expr, ast.Return)) and isinstance(
                s.value, ast.Call):
            c = s.value
            for i, a in enumerate(c.args):
                if not isinstance(a, (ast.Name, ast.Constant, ast.Starred,
                                      ast.GeneratorExp)) and \
                        self.sites.hit(s):
                    n = fresh("arg")
                    pre.append(assign(n, a))
                    c.args[i] = name(n)
            for k in c.keywords:
                if k.arg and not isinstance(k.value, (
                        ast.Name, ast.Constant)) and self.sites.hit(s):
                    n = fresh("arg")
                    pre.append(assign(n, k.value))
                    k.value = name(n)
        return pre + [s]


@transform
class alias_chain(Stmt):
    """x.y[i].z...: the part up to the last subscript gets a name"""

    def stmt(self, s):
        pre = []
        if not isinstance(s, (ast.Assign, ast.Expr, ast.Return,
                              ast.AugAssign, ast.If)):
            return s

        def pick(n):
            if isinstance(n, ast.Attribute) and isinstance(
                    n.ctx, ast.Load) and isinstance(
                    n.value, ast.Subscript) and self.sites.hit(n):
                v = fresh("obj")
                pre.append(assign(v, n.value))
                return ast.Attribute(name(v), n.attr, n.ctx)
        s = Find(pick).visit(s)
        return pre + [s]


@transform
class helper_expr(Stmt):
    """x = e -> def h(): return e; x = h()"""

    def stmt(self, s):
        if isinstance(s, (ast.Assign, ast.Return, ast.AugAssign)) and \
                s.value is not None and not isinstance(s.value, (
                    ast.Name, ast.Constant, ast.Yield, ast.YieldFrom)) and \
                "super" not in names(s) and \
                not any(isinstance(x, (ast.Yield, ast.YieldFrom))
                        for x in ast.walk(s)) and self.sites.hit(s):
            h = fresh("h")
            d = ast.FunctionDef(h, noargs(), [ast.Return(s.value)], [])
            s.value = ast.Call(name(h), [], [])
            return [d, s]
        return s


def noargs(a=()):
    return ast.arguments([], [ast.arg(x) for x in a], None, [], [], None, [])


def escapes(stmts):
    """break/continue/return/yield leaving these statements"""
    def go(s, inloop):
        if isinstance(s, (ast.Return, ast.Global, ast.Nonlocal)):
            return True
        if isinstance(s, (ast.Break, ast.Continue)):
            return not inloop
        if isinstance(s, (ast.FunctionDef, ast.ClassDef, ast.Lambda)):
            return False
        if isinstance(s, (ast.Yield, ast.YieldFrom)):
            return True
        if isinstance(s, (ast.For, ast.While)):
            return any(go(x, True) for x in ast.iter_child_nodes(s))
        return any(go(x, inloop) for x in ast.iter_child_nodes(s))
    return any(go(s, False) for s in stmts)


@transform
class helper_body(Stmt):
    """loop body in a nested function"""

    def stmt(self, s):
        if isinstance(s, ast.For) and not s.orelse and not escapes(s.body) \
                and "super" not in names(s):
            fn = self.fn[-1]
            st = stored(s.body) - names(s.target)
            inside = sum(1 for x in ast.walk(s) if isinstance(x, ast.Name)
                         and x.id in st)
            total = sum(1 for x in ast.walk(fn) if isinstance(x, ast.Name)
                        and x.id in st)
            if inside != total or st & {a.arg for a in fn.args.args}:
                return s
            if not self.sites.hit(s):
                return s
            h = fresh("step")
            ns = sorted(names(s.target))
            d = ast.FunctionDef(h, noargs(ns), s.body, [])
            return [d, ast.For(s.target, s.iter, [ast.Expr(ast.Call(
                name(h), [name(x) for x in ns], []))], [])]
        return s


def bound(fn):
    out = {a.arg for a in fn.args.args + fn.args.kwonlyargs
           + fn.args.posonlyargs}
    for a in (fn.args.vararg, fn.args.kwarg):
        if a:
            out.add(a.arg)
    return out


def local_names(fn):
    """names bound by fn's own statements (nested scopes excluded)"""
    out = set(bound(fn))

    def go(n):
        for c in ast.iter_child_nodes(n):
            if isinstance(c, (ast.FunctionDef, ast.ClassDef)):
                out.add(c.name)
                continue
            if isinstance(c, (ast.ListComp, ast.SetComp, ast.DictComp,
                              ast.GeneratorExp, ast.Lambda)):
                continue
            if isinstance(c, ast.Name) and isinstance(c.ctx, ast.Store):
                out.add(c.id)
            if isinstance(c, ast.ExceptHandler) and c.name:
                out.add(c.name)
            if isinstance(c, (ast.Import, ast.ImportFrom)):
                for a in c.names:
                    out.add((a.asname or a.name).split(".")[0])
            go(c)
    for s in fn.body:
        go(ast.Module([s], []))
    return out


@transform
class split_method(ast.NodeTransformer):
    """the second half of a long function in a function of its own: a method
    next to it, or a module-level function"""

    def __init__(self, sites):
        self.sites = sites
        self.extra = []

    def visit_Module(self, mod):
        out = []
        for s in mod.body:
            if isinstance(s, ast.FunctionDef):
                r = self.split(s, False)
                out.extend(r)
            else:
                out.append(self.visit(s))
        mod.body = out
        return mod

    def visit_ClassDef(self, c):
        out = []
        for s in c.body:
            if isinstance(s, ast.FunctionDef) and not s.decorator_list:
                out.extend(self.split(s, True))
            else:
                out.append(s)
        c.body = out
        return c

    def split(self, f, method):
        body = f.body
        if body and isinstance(body[0], ast.Expr) and isinstance(
                body[0].value, ast.Constant):
            doc, body = body[:1], body[1:]
        else:
            doc = []
        if len(body) < 2 or any(isinstance(x, (
                ast.Yield, ast.YieldFrom, ast.Nonlocal, ast.Global))
                for x in ast.walk(f)) or f.args.vararg or f.args.kwarg:
            return [f]
        k = len(body) // 2
        a, b = body[:k], body[k:]
        mod = ast.Module(b, [])
        pre = copy.copy(f)
        pre.body = a
        loc = local_names(pre)
        # nothing of the first half may refer to names bound in the second
        two = copy.copy(f)
        two.body = b
        late = (local_names(two) - bound(f)) & names(ast.Module(a, []))
        if late - stored(a):
            return [f]
        # closures of the first half must not see names rebound later
        inner = set()
        for s in a:
            for x in ast.walk(s):
                if isinstance(x, (ast.FunctionDef, ast.Lambda)):
                    inner |= names(x)
        if inner & stored(b) & loc:
            return [f]
        # names possibly unbound at the cut (bound in a branch only)
        sure = set(bound(f))
        for s in a:
            if isinstance(s, (ast.Assign, ast.AugAssign, ast.AnnAssign,
                              ast.FunctionDef, ast.Import, ast.ImportFrom)):
                one = copy.copy(f)
                one.body = [s]
                sure |= local_names(one)
        need = [n for n in sorted(loc) if n in names(mod)]
        if any(n not in sure for n in need):
            return [f]
        if not self.sites.hit(f):
            return [f]
        h = "_" + fresh("part")
        if method:
            selfn = f.args.args[0].arg
            need = [n for n in need if n != selfn]
            g = ast.FunctionDef(h, noargs([selfn] + need), b, [])
            call = ast.Call(ast.Attribute(name(selfn), h, ast.Load()),
                            [name(n) for n in need], [])
        else:
            g = ast.FunctionDef(h, noargs(need), b, [])
            call = ast.Call(name(h), [name(n) for n in need], [])
        f.body = doc + a + [ast.Return(call)]
        return [f, g]


def free(fn):
    """free names of a nested function"""
    loc = local_names(fn)
    out = set()

    def go(n, b):
        if isinstance(n, ast.Name):
            if n.id not in b:
                out.add(n.id)
            return
        if isinstance(n, (ast.FunctionDef, ast.Lambda)):
            nb = b | (local_names(n) if isinstance(n, ast.FunctionDef)
                      else bound(n))
            for c in ast.iter_child_nodes(n):
                go(c, nb)
            return
        if isinstance(n, (ast.ListComp, ast.SetComp, ast.DictComp,
                          ast.GeneratorExp)):
            nb = b | {x for g in n.generators for x in names(g.target)}
            for c in ast.iter_child_nodes(n):
                go(c, nb)
            return
        for c in ast.iter_child_nodes(n):
            go(c, b)
    for s in fn.body:
        go(s, loc)
    return out


@transform
class rule_method(ast.NodeTransformer):
    """nested functions become methods, called through partial"""

    def __init__(self, sites):
        self.sites = sites
        self.imports = ["functools"]

    def visit_ClassDef(self, c):
        out = []
        for f in c.body:
            if isinstance(f, ast.FunctionDef) and f.args.args and \
                    not f.decorator_list:
                out.extend(self.lift(f))
            else:
                out.append(f)
        c.body = out
        return c

    def lift(self, f):
        selfn = f.args.args[0].arg
        extra = []
        loc = local_names(f)
        fns = {s.name for s in f.body if isinstance(s, ast.FunctionDef)}
        seen = {}
        for s in f.body:
            if isinstance(s, ast.FunctionDef):
                seen[s.name] = seen.get(s.name, 0) + 1
        for i, s in enumerate(f.body):
            if isinstance(s, ast.FunctionDef) and not s.decorator_list:
                fr = sorted((free(s) & loc) - {selfn})
                if fns & set(fr) or "super" in names(s):
                    continue
                # rebound after the definition?
                later = ast.Module(f.body[i + 1:], [])
                if set(fr) & (stored(later.body)):
                    continue
                own = {a.arg for a in s.args.args}
                if selfn in own or set(fr) & own or s.args.defaults:
                    continue
                if any(isinstance(x, ast.Nonlocal) for x in ast.walk(s)):
                    continue
                if not self.sites.hit(s):
                    continue
                h = "_lifted" + s.name + fresh("")
                g = ast.FunctionDef(h, ast.arguments(
                    [], [ast.arg(selfn)] + [ast.arg(x) for x in fr]
                    + s.args.args, None, [], [], None, []), s.body, [])
                ref = ast.Attribute(name(selfn), h, ast.Load())
                if fr:
                    ref = ast.Call(ast.Attribute(
                        name("functools"), "partial", ast.Load()),
                        [ref] + [name(x) for x in fr], [])
                f.body[i] = assign(s.name, ref)
                extra.append(g)
        return [f] + extra


@transform
class def_lambda(Stmt):
    def stmt(self, s):
        if isinstance(s, ast.FunctionDef) and len(self.fn) > 0:
            b = s.body
            if b and isinstance(b[0], ast.Expr) and isinstance(
                    b[0].value, ast.Constant):
                b = b[1:]
            if len(b) == 1 and isinstance(b[0], ast.Return) and \
                    b[0].value is not None and not s.decorator_list and \
                    self.sites.hit(s):
                return assign(s.name, ast.Lambda(s.args, b[0].value))
        return s


@transform
class build_call(Stmt):
    """self.X_build = BuildAction(rule=f) -> f(self)"""

    def stmt(self, s):
        if isinstance(s, ast.Assign) and isinstance(s.value, ast.Call) and \
                isinstance(s.value.func, ast.Name) and s.value.func.id == \
                "BuildAction" and not s.value.args and isinstance(
                s.targets[0], ast.Attribute) and self.sites.hit(s):
            return ast.Expr(ast.Call(s.value.keywords[0].value,
                                     [s.targets[0].value], []))
        return s


@transform
class add_item(Stmt):
    """c.add(k, e) -> c[k] = e"""

    def stmt(self, s):
        if isinstance(s, ast.Expr) and isinstance(s.value, ast.Call) and \
                isinstance(s.value.func, ast.Attribute) and \
                s.value.func.attr == "add" and len(s.value.args) == 2 and \
                self.sites.hit(s):
            return ast.Assign([ast.Subscript(
                s.value.func.value, s.value.args[0], ast.Store())],
                s.value.args[1])
        return s


def attrs(node):
    return {x.attr for x in ast.walk(node) if isinstance(x, ast.Attribute)}


@transform
class swap_adjacent(Stmt):
    def block(self, body, parent):
        i = 0
        while i + 1 < len(body):
            a, b = body[i], body[i + 1]
            if all(isinstance(x, ast.Assign) for x in (a, b)):
                ta, tb = a.targets[0], b.targets[0]

                def key(t):
                    return t.attr if isinstance(t, ast.Attribute) else (
                        t.id if isinstance(t, ast.Name) else None)
                ka, kb = key(ta), key(tb)
                if ka and kb and ka != kb and ka not in (
                        attrs(b) | names(b)) and kb not in (
                        attrs(a) | names(a)) and self.sites.hit(a):
                    body[i], body[i + 1] = b, a
                    i += 2
                    continue
            i += 1
        return body


@transform
class inline(Stmt):
    """x = e; s(x)  ->  s(e) if x is used once, there"""

    def block(self, body, parent):
        i = 0
        while i + 1 < len(body):
            a, b = body[i], body[i + 1]
            if isinstance(a, ast.Assign) and len(a.targets) == 1 and \
                    isinstance(a.targets[0], ast.Name) and isinstance(
                    b, (ast.Assign, ast.Return, ast.Expr, ast.AugAssign)):
                x = a.targets[0].id
                uses = [n for n in ast.walk(self.fn[0]) if isinstance(
                    n, ast.Name) and n.id == x]
                if len(uses) == 2 and x in names(b, ast.Load):
                    ok = []

                    def pick(n):
                        if isinstance(n, ast.Name) and n.id == x:
                            ok.append(n)
                            return a.value
                    t = copy.deepcopy(b)
                    t = Find(pick).visit(t)
                    if ok and self.sites.hit(a):
                        body[i:i + 2] = [t]
                        continue
            i += 1
        return body


@transform
class noops(Stmt):
    def block(self, body, parent):
        out = []
        for s in body:
            if self.sites.hit(s):
                out.append(assign("_", ast.Constant(None)))
            out.append(s)
        if isinstance(body[0], ast.Expr) and isinstance(
                body[0].value, ast.Constant) and len(out) > 1:
            out[0], out[1] = out[1], out[0]
        return out


class Expr(ast.NodeTransformer):
    def __init__(self, sites):
        self.sites = sites


@transform
class flip_cmp(Expr):
    def visit_Compare(self, n):
        self.generic_visit(n)
        sw = {ast.Lt: ast.Gt, ast.Gt: ast.Lt, ast.LtE: ast.GtE,
              ast.GtE: ast.LtE, ast.Eq: ast.Eq, ast.NotEq: ast.NotEq}
        if len(n.ops) == 1 and type(n.ops[0]) in sw and self.sites.hit(n):
            return ast.Compare(n.comparators[0], [sw[type(n.ops[0])]()],
                               [n.left])
        return n


@transform
class not_is(Expr):
    def visit_Compare(self, n):
        self.generic_visit(n)
        sw = {ast.Is: ast.IsNot, ast.IsNot: ast.Is, ast.In: ast.NotIn,
              ast.NotIn: ast.In}
        if len(n.ops) == 1 and type(n.ops[0]) in sw and self.sites.hit(n):
            return ast.UnaryOp(ast.Not(), ast.Compare(
                n.left, [sw[type(n.ops[0])]()], n.comparators))
        return n


@transform
class swap_mult(Expr):
    def visit_BinOp(self, n):
        self.generic_visit(n)
        if isinstance(n.op, ast.Mult) and self.sites.hit(n):
            n.left, n.right = n.right, n.left
        return n


@transform
class swap_add(Expr):
    def visit_BinOp(self, n):
        self.generic_visit(n)
        if isinstance(n.op, ast.Add) and not any(isinstance(x, (
                ast.JoinedStr, ast.List, ast.ListComp, ast.Tuple))
                or isinstance(x, ast.Constant) and isinstance(x.value, str)
                or isinstance(x, ast.Name) and x.id in ("list", "tuple",
                                                        "str")
                or isinstance(x, ast.Attribute) and x.attr in (
                    "format", "label", "inflow", "storages")
                for x in ast.walk(n)) and self.sites.hit(n):
            n.left, n.right = n.right, n.left
        return n


@transform
class sub_add(Expr):
    def visit_BinOp(self, n):
        self.generic_visit(n)
        if isinstance(n.op, ast.Sub) and self.sites.hit(n) and not any(
                isinstance(x, (ast.Call,)) and isinstance(
                    x.func, ast.Name) and x.func.id == "set"
                for x in ast.walk(n)):
            return ast.BinOp(ast.UnaryOp(ast.USub(), n.right), ast.Add(),
                             n.left)
        return n


@transform
class fstring(Expr):
    def visit_JoinedStr(self, n):
        if not all(isinstance(v, ast.Constant) or (
                v.conversion == -1 and v.format_spec is None)
                for v in n.values):
            return n
        if not self.sites.hit(n):
            return n
        s, a = "", []
        for v in n.values:
            if isinstance(v, ast.Constant):
                s += v.value.replace("{", "{{").replace("}", "}}")
            else:
                s += "{}"
                a.append(v.value)
        return ast.Call(ast.Attribute(ast.Constant(s), "format",
                                      ast.Load()), a, [])


@transform
class listcomp_list(Expr):
    def visit_ListComp(self, n):
        self.generic_visit(n)
        if self.sites.hit(n):
            return ast.Call(name("list"), [ast.GeneratorExp(
                n.elt, n.generators)], [])
        return n


@transform
class sum_list(Expr):
    def visit_Call(self, n):
        self.generic_visit(n)
        if isinstance(n.func, ast.Name) and n.func.id == "sum" and \
                n.args and isinstance(n.args[0], ast.GeneratorExp) and \
                self.sites.hit(n):
            n.args[0] = ast.ListComp(n.args[0].elt, n.args[0].generators)
        return n


@transform
class dict_call(Expr):
    def visit_Dict(self, n):
        self.generic_visit(n)
        if not n.keys and self.sites.hit(n):
            return ast.Call(name("dict"), [], [])
        return n


@transform
class kw_order(Expr):
    def visit_Call(self, n):
        self.generic_visit(n)
        if len(n.keywords) > 1 and all(k.arg for k in n.keywords) and \
                self.sites.hit(n):
            n.keywords = n.keywords[::-1]
        return n


@transform
class keys_call(Expr):
    """.keys() dropped where iterated"""

    def _it(self, n):
        self.generic_visit(n)
        i = n.iter
        if isinstance(i, ast.Call) and isinstance(
                i.func, ast.Attribute) and i.func.attr == "keys" and \
                self.sites.hit(i):
            n.iter = i.func.value
        return n

    visit_For = visit_comprehension = _it


@transform
class demorgan(Expr):
    def visit_BoolOp(self, n):
        self.generic_visit(n)
        return n

    def visit_If(self, s):
        self.generic_visit(s)
        if isinstance(s.test, ast.BoolOp) and self.sites.hit(s):
            op = ast.Or() if isinstance(s.test.op, ast.And) else ast.And()
            s.test = ast.UnaryOp(ast.Not(), ast.BoolOp(op, [
                ast.UnaryOp(ast.Not(), v) for v in s.test.values]))
        return s


@transform
class rename_locals(ast.NodeTransformer):
    def __init__(self, sites):
        self.sites = sites

    def visit_FunctionDef(self, f, outer=()):
        if any(isinstance(x, (ast.Nonlocal, ast.Global))
               for x in ast.walk(f)):
            return f
        if not self.sites.hit(f):
            return f
        m = {n: n + "_r" for n in local_names(f) - bound(f)}
        self.ren(f, m)
        return f

    def ren(self, n, m):
        for c in ast.iter_child_nodes(n):
            if isinstance(c, ast.Name) and c.id in m:
                c.id = m[c.id]
            elif isinstance(c, ast.ExceptHandler) and c.name in m:
                c.name = m[c.name]
                self.ren(c, m)
            elif isinstance(c, (ast.Import, ast.ImportFrom)):
                for a in c.names:
                    k = (a.asname or a.name).split(".")[0]
                    if k in m:
                        a.asname = m[k]
            elif isinstance(c, ast.FunctionDef):
                own = local_names(c)
                inner = {x: y for x, y in m.items() if x not in own}
                inner.update({n_: n_ + "_r" for n_ in own
                              - bound(c)})
                for d in c.args.defaults:
                    self.ren(ast.Expr(d), m)
                old = c.args.defaults
                c.args.defaults = []
                self.ren(c, inner)
                c.args.defaults = old
                if c.name in m:
                    c.name = m[c.name]
            elif isinstance(c, ast.Lambda):
                self.ren(c, {x: y for x, y in m.items()
                             if x not in bound(c)})
            elif isinstance(c, (ast.ListComp, ast.SetComp, ast.DictComp,
                                ast.GeneratorExp)):
                b = {x for g in c.generators for x in names(g.target)}
                self.ren(c, {x: y for x, y in m.items() if x not in b})
            else:
                self.ren(c, m)


@transform
class rule_static(rule_method):
    """nested functions become static methods"""

    def lift(self, f):
        out = super().lift(f)
        selfn = f.args.args[0].arg
        for g in out[1:]:
            if selfn in names(ast.Module(g.body, [])):
                g.args.args[0].arg = selfn
                continue
            g.args.args.pop(0)
            g.decorator_list = [name("staticmethod")]
        return out


@transform
class helper_mod(ast.NodeTransformer):
    """values of assignments and returns computed by functions of the
    module"""

    def __init__(self, sites):
        self.sites = sites
        self.new = []
        self.fn = []

    def visit_Module(self, m):
        self.glob = set()
        for s in m.body:
            one = ast.FunctionDef("x", noargs(), [s], [])
            self.glob |= local_names(one)
        self.generic_visit(m)
        m.body.extend(self.new)
        return m

    def visit_FunctionDef(self, f):
        self.fn.append(local_names(f))
        self.generic_visit(f)
        self.fn.pop()
        return f

    def visit_Lambda(self, n):
        return n

    def _do(self, s):
        if not self.fn or s.value is None or isinstance(s.value, (
                ast.Name, ast.Constant)) or "super" in names(s) or any(
                isinstance(x, (ast.Yield, ast.YieldFrom, ast.Lambda))
                for x in ast.walk(s)):
            return s
        loc = set().union(*self.fn)
        comp = set()
        for x in ast.walk(s.value):
            if isinstance(x, (ast.ListComp, ast.SetComp, ast.DictComp,
                              ast.GeneratorExp)):
                comp |= {y for g in x.generators for y in names(g.target)}
        use = sorted((names(s.value) & loc) - comp)
        if names(s.value) & loc & comp or not self.sites.hit(s):
            return s
        h = "_" + fresh("value")
        self.new.append(ast.FunctionDef(h, noargs(use),
                                        [ast.Return(s.value)], []))
        s.value = ast.Call(name(h), [name(x) for x in use], [])
        return s

    visit_Assign = visit_Return = visit_AugAssign = _do


@transform
class cond_helper(Stmt):
    """conditions of if statements and comprehensions in local functions"""

    def stmt(self, s):
        if isinstance(s, ast.If) and not isinstance(s.test, (
                ast.Name, ast.Constant)) and self.sites.hit(s):
            h = fresh("cond")
            d = ast.FunctionDef(h, noargs(), [ast.Return(s.test)], [])
            s.test = ast.Call(name(h), [], [])
            return [d, s]
        return s


@transform
class comp_cond(Stmt):
    def stmt(self, s):
        pre = []
        if isinstance(s, (ast.FunctionDef, ast.ClassDef)):
            return s

        def pick(n):
            if isinstance(n, (ast.ListComp, ast.GeneratorExp, ast.SetComp,
                              ast.DictComp)):
                tv = sorted({x for g in n.generators
                             for x in names(g.target)})
                for g in n.generators:
                    for k, c in enumerate(g.ifs):
                        if self.sites.hit(n):
                            h = fresh("test")
                            use = [v for v in tv if v in names(c)]
                            pre.append(ast.FunctionDef(
                                h, noargs(use), [ast.Return(c)], []))
                            g.ifs[k] = ast.Call(
                                name(h), [name(v) for v in use], [])
        s = Find(pick).visit(s)
        return pre + [s]


@transform
class map_filter(ast.NodeTransformer):
    def __init__(self, sites):
        self.sites = sites

    def visit_ListComp(self, n):
        self.generic_visit(n)
        if len(n.generators) == 1 and isinstance(
                n.generators[0].target, ast.Name) and self.sites.hit(n):
            g = n.generators[0]
            it = g.iter
            v = g.target.id
            for c in g.ifs:
                it = ast.Call(name("filter"), [ast.Lambda(
                    noargs([v]), c), it], [])
            if not (isinstance(n.elt, ast.Name) and n.elt.id == v):
                it = ast.Call(name("map"), [ast.Lambda(
                    noargs([v]), n.elt), it], [])
            return ast.Call(name("list"), [it], [])
        return n


@transform
class prefilter(Stmt):
    """for x in X: if c: ..  ->  for x in [x for x in X if c]: .."""

    def stmt(self, s):
        if isinstance(s, ast.For) and len(s.body) == 1 and isinstance(
                s.body[0], ast.If) and not s.body[0].orelse and \
                self.sites.hit(s):
            i = s.body[0]
            t = copy.deepcopy(s.target)
            for x in ast.walk(t):
                if isinstance(x, (ast.Name, ast.Tuple)):
                    x.ctx = ast.Load()
            s.iter = ast.ListComp(t, [ast.comprehension(
                copy.deepcopy(s.target), s.iter, [i.test], 0)])
            s.body = i.body
        return s


@transform
class unswitch(Stmt):
    """for x: if c: A else: B  ->  if c: for x: A  else: for x: B"""

    def stmt(self, s):
        if isinstance(s, ast.For) and len(s.body) == 1 and isinstance(
                s.body[0], ast.If) and not (
                stored([s]) & names(s.body[0].test)) and self.sites.hit(s):
            i = s.body[0]
            return ast.If(i.test, [ast.For(s.target, s.iter, i.body, [])], [
                ast.For(copy.deepcopy(s.target), copy.deepcopy(s.iter),
                        i.orelse, [])] if i.orelse else [])
        return s


@transform
class switch_in(Stmt):
    """the other way round"""

    def stmt(self, s):
        if isinstance(s, ast.If) and len(s.body) == 1 and isinstance(
                s.body[0], ast.For) and not s.orelse and not (
                stored(s.body) & names(s.test)) and self.sites.hit(s):
            f = s.body[0]
            f.body = [ast.If(s.test, f.body, [])]
            return f
        return s


@transform
class sink(Stmt):
    """the statement after an if in both branches"""

    def block(self, body, parent):
        i = 0
        while i + 1 < len(body):
            a, b = body[i], body[i + 1]
            if isinstance(a, ast.If) and a.orelse and not terminal(
                    a.body) and not terminal(a.orelse) and isinstance(b, (
                        ast.Assign, ast.Expr, ast.Return, ast.AugAssign)) \
                    and self.sites.hit(a):
                a.body = a.body + [b]
                a.orelse = a.orelse + [copy.deepcopy(b)]
                del body[i + 1]
                continue
            i += 1
        return body


@transform
class fission(Stmt):
    """a loop adding several things becomes several loops"""

    def stmt(self, s):
        if not isinstance(s, ast.For) or s.orelse or len(s.body) < 2 or \
                escapes(s.body):
            return s
        groups, cur = [], []
        for x in s.body:
            cur.append(x)
            if isinstance(x, ast.Expr) and isinstance(x.value, ast.Call):
                groups.append(cur)
                cur = []
        if cur or len(groups) < 2:
            return s
        if any(isinstance(x, (ast.AugAssign, ast.For, ast.While))
               for g in groups for y in g for x in ast.walk(y)):
            return s
        for a in range(len(groups)):
            for b in range(len(groups)):
                if a == b:
                    continue
                w = stored(groups[a])
                have = set()
                for x in groups[b]:
                    r = names(x, ast.Load)
                    if w & r - have:
                        return s
                    have |= stored([x])
        if not self.sites.hit(s):
            return s
        return [ast.For(copy.deepcopy(s.target), copy.deepcopy(s.iter), g,
                        []) for g in groups]


@transform
class enum_index(Stmt):
    """for i, x in enumerate(X) -> for i in range(len(X)): x = X[i]"""

    def stmt(self, s):
        if isinstance(s, ast.For) and isinstance(s.iter, ast.Call) and \
                isinstance(s.iter.func, ast.Name) and s.iter.func.id == \
                "enumerate" and len(s.iter.args) == 1 and isinstance(
                s.target, ast.Tuple) and self.sites.hit(s):
            i, x = s.target.elts
            seq = s.iter.args[0]
            s.body = [ast.Assign([x], ast.Subscript(
                seq, name(i.id), ast.Load()))] + s.body
            s.target = i
            s.iter = ast.Call(name("range"), [ast.Call(
                name("len"), [copy.deepcopy(seq)], [])], [])
        return s


@transform
class index_enum(Stmt):
    """for i in range(len(X)) -> for i, _ in enumerate(X)"""

    def stmt(self, s):
        if isinstance(s, ast.For) and isinstance(s.iter, ast.Call) and \
                isinstance(s.iter.func, ast.Name) and s.iter.func.id == \
                "range" and len(s.iter.args) == 1 and isinstance(
                s.iter.args[0], ast.Call) and isinstance(
                s.iter.args[0].func, ast.Name) and \
                s.iter.args[0].func.id == "len" and self.sites.hit(s):
            s.target = ast.Tuple([s.target, name("_", ast.Store())],
                                 ast.Store())
            s.iter = ast.Call(name("enumerate"), s.iter.args[0].args, [])
        return s


@transform
class kw_dict(Stmt):
    def stmt(self, s):
        if isinstance(s, (ast.Assign, ast.Expr, ast.Return)) and isinstance(
                s.value, ast.Call) and s.value.keywords and all(
                k.arg for k in s.value.keywords) and self.sites.hit(s):
            n = fresh("options")
            ks = s.value.keywords
            s.value.keywords = [ast.keyword(None, name(n))]
            return [assign(n, ast.Dict([ast.Constant(k.arg) for k in ks],
                                       [k.value for k in ks])), s]
        return s


@transform
class set_helper(ast.NodeTransformer):
    """Set(initialize=[g for g in X if c]) -> _subset(X, lambda g: c)"""

    def __init__(self, sites):
        self.sites = sites
        self.used = set()

    def visit_Module(self, m):
        self.generic_visit(m)
        for q in sorted(self.used):
            h = "_subset" + q.replace(".", "_")
            m.body.append(ast.parse(
                f"def {h}(items, condition):\n"
                f"    return {q}(initialize=[x for x in items "
                "if condition(x)])").body[0])
        return m

    def visit_Call(self, n):
        self.generic_visit(n)
        q = ast.unparse(n.func)
        if q in ("Set", "po.Set") and len(n.keywords) == 1 and isinstance(
                n.keywords[0].value, ast.ListComp):
            c = n.keywords[0].value
            g = c.generators[0]
            if len(c.generators) == 1 and isinstance(
                    g.target, ast.Name) and isinstance(
                    c.elt, ast.Name) and c.elt.id == g.target.id and \
                    g.ifs and self.sites.hit(n):
                self.used.add(q)
                t = g.ifs[0] if len(g.ifs) == 1 else ast.BoolOp(
                    ast.And(), g.ifs)
                return ast.Call(name("_subset" + q.replace(".", "_")), [
                    g.iter, ast.Lambda(noargs([g.target.id]), t)], [])
        return n


@transform
class mixin(ast.NodeTransformer):
    """the last method moves to a base class"""

    def __init__(self, sites):
        self.sites = sites

    def visit_Module(self, m):
        out = []
        for c in m.body:
            if isinstance(c, ast.ClassDef):
                fs = [f for f in c.body if isinstance(f, ast.FunctionDef)]
                f = fs[-1] if fs else None
                if len(fs) > 1 and not f.decorator_list and not any(
                        isinstance(x, ast.Name) and x.id == "super"
                        for x in ast.walk(f)) and self.sites.hit(c):
                    n = "_" + c.name + "Part"
                    c.body.remove(f)
                    out.append(ast.ClassDef(n, [], [], [f], []))
                    c.bases = [name(n)] + c.bases
            out.append(c)
        m.body = out
        return m


@transform
class in_or(ast.NodeTransformer):
    """x in (a, b) -> x == a or x == b; isinstance with tuples"""

    def __init__(self, sites):
        self.sites = sites

    def visit_Compare(self, n):
        self.generic_visit(n)
        if len(n.ops) == 1 and isinstance(n.ops[0], ast.In) and isinstance(
                n.comparators[0], (ast.Tuple, ast.List)) and \
                self.sites.hit(n):
            return ast.BoolOp(ast.Or(), [ast.Compare(
                copy.deepcopy(n.left), [ast.Eq()], [x])
                for x in n.comparators[0].elts])
        return n

    def visit_Call(self, n):
        self.generic_visit(n)
        if isinstance(n.func, ast.Name) and n.func.id == "isinstance" and \
                isinstance(n.args[1], ast.Tuple) and self.sites.hit(n):
            return ast.BoolOp(ast.Or(), [ast.Call(
                n.func, [copy.deepcopy(n.args[0]), x], [])
                for x in n.args[1].elts])
        return n


@transform
class inf_const(ast.NodeTransformer):
    def __init__(self, sites):
        self.sites = sites
        self.imports = ["math"]

    def visit_Call(self, n):
        self.generic_visit(n)
        if isinstance(n.func, ast.Name) and n.func.id == "float" and \
                isinstance(n.args[0], ast.Constant) and n.args[0].value in (
                    "inf", "+inf") and self.sites.hit(n):
            return ast.Attribute(name("math"), "inf", ast.Load())
        return n


@transform
class add_rule(Stmt):
    """C.add(..) in plain loops of a BuildAction rule -> Constraint(.., rule)
    with the loops as index sets; the declaration has to name the same"""

    def block(self, body, parent):
        # def R(b): for x in X: for y in Y: e = ..; b.C.add((x, y), e)
        decl = {}
        for i, s in enumerate(body):
            if isinstance(s, ast.Assign) and isinstance(
                    s.targets[0], ast.Attribute) and isinstance(
                    s.value, ast.Call) and ast.unparse(
                    s.value.func).endswith("Constraint") and any(
                    k.arg == "noruleinit" for k in s.value.keywords):
                decl[s.targets[0].attr] = s
        for i, s in enumerate(body):
            if not isinstance(s, ast.FunctionDef) or len(s.args.args) != 1:
                continue
            b = [x for x in s.body if not (isinstance(x, ast.Expr)
                                           and isinstance(x.value,
                                                          ast.Constant))]
            loops_, cur = [], b
            while len(cur) == 1 and isinstance(cur[0], ast.For):
                loops_.append(cur[0])
                cur = cur[0].body
            if not loops_ or not cur or not isinstance(
                    cur[-1], ast.Expr) or not isinstance(
                    cur[-1].value, ast.Call) or not isinstance(
                    cur[-1].value.func, ast.Attribute) or \
                    cur[-1].value.func.attr != "add" or len(
                        cur[-1].value.args) != 2:
                continue
            if any(isinstance(x, (ast.Continue, ast.Break))
                   for y in cur for x in ast.walk(y)):
                continue
            c = cur[-1].value.func.value
            d = decl.get(c.attr) if isinstance(c, ast.Attribute) else None
            key = cur[-1].value.args[0]
            if d is None or not isinstance(key, ast.Tuple) or not all(
                    isinstance(x, ast.Name) for x in key.elts):
                continue
            iters = {ast.unparse(l.iter) for l in loops_}
            sets = [ast.unparse(a) for a in d.value.args]
            if iters != set(sets) or len(sets) != len(loops_):
                continue
            tv = [n for a in sets for l in loops_
                  if ast.unparse(l.iter) == a
                  for n in ([x.id for x in l.target.elts] if isinstance(
                      l.target, ast.Tuple) else [l.target.id])]
            if tv != [x.id for x in key.elts]:
                continue
            bad = [x for x in body if isinstance(x, ast.Assign)
                   and isinstance(x.value, ast.Call) and ast.unparse(
                       x.value.func).endswith("BuildAction")
                   and s.name in names(x)]
            if len(bad) != 1 or not self.sites.hit(s):
                continue
            s.args.args += [ast.arg(n) for n in tv]
            s.body = cur[:-1] + [ast.Return(cur[-1].value.args[1])]
            d.value.keywords = [ast.keyword("rule", name(s.name))]
            if body.index(d) < i:
                body.remove(d)
                body.insert(body.index(s) + 1, d)
            body.remove(bad[0])
        return body


# ------------------------------------------------------------------ driver
def files():
    base = os.path.join(SRC, "oemof", "solph")
    for d, ds, fs in os.walk(base):
        for f in sorted(fs):
            if f.endswith(".py") and f != "__init__.py":
                yield os.path.relpath(os.path.join(d, f), base)


def apply(rel, tname, want=None):
    """-> (new text, number of sites, their lines)"""
    _k[0] = 0
    p = os.path.join(SRC, "oemof", "solph", rel)
    with open(p, encoding="utf-8") as f:
        tree = ast.parse(f.read())
    sites = Sites(want)
    tr = T[tname](sites)
    tree = tr.visit(tree)
    if sites.n and getattr(tr, "imports", None):
        at = 0
        for i, s in enumerate(tree.body):
            if isinstance(s, ast.ImportFrom) and s.module == "__future__" \
                    or isinstance(s, ast.Expr):
                at = i + 1
            else:
                break
        for m in tr.imports:
            tree.body.insert(at, ast.Import([ast.alias(m)]))
    ast.fix_missing_locations(tree)
    text = ast.unparse(tree)
    compile(text, p, "exec")
    return text, sites.n, sites.lines


_touch = {}


def base_functions():
    """unit -> files it walks"""
    from solphsa.registry import UNITS
    from solphsa.source import Repo
    repo = Repo(SRC)
    out = {}
    for u, f in UNITS.items():
        r = f(repo)
        out[u] = {os.path.relpath(str(x[0]), os.path.join(
            SRC, "oemof", "solph")) for x in r.functions
            if isinstance(x, tuple)}
    return out


def examine(args):
    rel, tname, want, us, keep = args
    sys.setrecursionlimit(20000)
    from solphsa.registry import UNITS
    from solphsa.source import Repo
    from solphsa.units import Broken
    text, n, lines = apply(rel, tname, want)
    if not n:
        return rel, tname, want, 0, [], lines
    d = tempfile.mkdtemp(prefix="refac")
    out = []
    try:
        shutil.copytree(SRC, d + "/src", ignore=shutil.ignore_patterns(
            "__pycache__"))
        with open(os.path.join(d, "src", "oemof", "solph", rel), "w") as f:
            f.write(text)
        repo = Repo(d + "/src")
        for u in us:
            try:
                r = UNITS[u](repo)
                stm = [x for x in r.unknown if x[2].startswith(
                    ("statement", "while", "constraint"))]
                if r.findings or stm:
                    out.append((u, len(r.findings), str(
                        [(f.what, sorted(f.tags), f.locs[:1], f.msg)
                         for f in r.findings[:2]] or stm[:2])))
            except Broken as e:
                out.append((u, -1, f"Broken {e}"))
            except Exception as e:
                out.append((u, -2, f"{type(e).__name__} {e}"))
        if keep:
            os.makedirs(keep, exist_ok=True)
            with open(os.path.join(keep, os.path.basename(rel)), "w") as f:
                f.write(text)
    finally:
        shutil.rmtree(d)
    return rel, tname, want, n, out, lines


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("-t")
    ap.add_argument("-f")
    ap.add_argument("-s", type=int)
    ap.add_argument("-v", action="store_true")
    ap.add_argument("-o")
    ap.add_argument("-b", action="store_true", help="site by site")
    a = ap.parse_args()
    ts = a.t.split(",") if a.t else list(T)
    fs = a.f.split(",") if a.f else list(files())
    touch = base_functions()
    want = None if a.s is None else {a.s}
    jobs = []
    for f in fs:
        us = [u for u, x in touch.items() if f in x]
        if not us:
            continue
        for t in ts:
            if a.b:
                n = apply(f, t)[1]
                jobs += [(f, t, {i}, us, a.o) for i in range(n)]
            else:
                jobs.append((f, t, want, us, a.o))
    bad = tot = 0
    with cf.ProcessPoolExecutor(8) as ex:
        for rel, t, w, n, out, lines in ex.map(examine, jobs):
            tot += bool(n)
            if out:
                bad += 1
                at = [lines[i] for i in sorted(w)] if w else ""
                print(f"{t:14s} {rel} sites={n} {sorted(w) if w else ''} "
                      f"{at} {[o[0] for o in out]}")
                if a.v:
                    for o in out:
                        print("     ", o[0], o[2][:600])
    print("noisy", bad, "of", tot)


if __name__ == "__main__":
    main()
