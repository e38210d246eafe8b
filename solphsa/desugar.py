"""statements written with others that mean the same: match, several shapes
of while"""
import ast
import copy


def load(n):
    return ast.Name(n, ast.Load())


def store(n):
    return ast.Name(n, ast.Store())


def own(body, kind):
    """statements of a kind that belong to the loop with this body"""
    out, todo = [], list(body)
    while todo:
        n = todo.pop()
        if isinstance(n, kind):
            out.append(n)
        elif isinstance(n, (ast.For, ast.While)):
            todo += n.orelse
        elif not isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef)):
            todo += ast.iter_child_nodes(n)
    return out


def names(nodes):
    return {x.id for n in nodes for x in ast.walk(n)
            if isinstance(x, ast.Name)}


def written(nodes):
    return {x.id for n in nodes for x in ast.walk(n)
            if isinstance(x, ast.Name) and not isinstance(x.ctx, ast.Load)}


def negated(c):
    if isinstance(c, ast.UnaryOp) and isinstance(c.op, ast.Not):
        return c.operand
    if isinstance(c, ast.Compare) and len(c.ops) == 1:
        for a, b in ((ast.Lt, ast.GtE), (ast.LtE, ast.Gt),
                     (ast.Eq, ast.NotEq), (ast.Is, ast.IsNot),
                     (ast.In, ast.NotIn)):
            for x, y in ((a, b), (b, a)):
                if isinstance(c.ops[0], x):
                    return ast.Compare(c.left, [y()], c.comparators)
    return ast.UnaryOp(ast.Not(), c)


class Unclear(Exception):
    pass


def matches(p, subject):
    """(condition or None, names bound) of a pattern"""
    if isinstance(p, ast.MatchValue):
        return ast.Compare(subject(), [ast.Eq()], [p.value]), []
    if isinstance(p, ast.MatchSingleton):
        return ast.Compare(subject(), [ast.Is()],
                           [ast.Constant(p.value)]), []
    if isinstance(p, ast.MatchOr):
        cs = [matches(x, subject) for x in p.patterns]
        if any(b for _, b in cs):
            raise Unclear
        if any(c is None for c, _ in cs):
            return None, []
        return ast.BoolOp(ast.Or(), [c for c, _ in cs]), []
    if isinstance(p, ast.MatchAs):
        c, b = (None, []) if p.pattern is None else matches(p.pattern,
                                                            subject)
        return c, b + ([] if p.name is None else [(p.name, subject())])
    if isinstance(p, ast.MatchClass) and not p.patterns:
        cs = [ast.Call(load("isinstance"), [subject(), p.cls], [])]
        bs = []
        for a, x in zip(p.kwd_attrs, p.kwd_patterns):
            c, b = matches(x, lambda a=a: ast.Attribute(
                subject(), a, ast.Load()))
            cs += [] if c is None else [c]
            bs += b
        return cs[0] if len(cs) == 1 else ast.BoolOp(ast.And(), cs), bs
    raise Unclear


class Desugar(ast.NodeTransformer):
    def __init__(self):
        self.count = 0

    def fresh(self):
        self.count += 1
        return f"_desugared_{self.count}"

    def placed(self, new, s):
        for x in new:
            for y in ast.walk(x):
                if not hasattr(y, "lineno") and "lineno" in getattr(
                        y, "_attributes", ()):
                    ast.copy_location(y, s)
            ast.fix_missing_locations(x)
        return new

    # ------------------------------------------------------------- match
    def visit_Match(self, s):
        self.generic_visit(s)
        try:
            return self.placed(self.chain(s), s)
        except Unclear:
            return s

    def chain(self, s):
        before = []

        def named(e):
            if isinstance(e, (ast.Name, ast.Constant)):
                return lambda: copy.deepcopy(e)
            n = self.fresh()
            before.append(ast.Assign([store(n)], e))
            return lambda: load(n)
        parts = None
        if isinstance(s.subject, ast.Tuple) and not any(
                isinstance(e, ast.Starred) for e in s.subject.elts):
            parts = [named(e) for e in s.subject.elts]
        else:
            whole = named(s.subject)
        rest = []
        for c in reversed(s.cases):
            p = c.pattern
            if parts is None:
                cond, bound = matches(p, whole)
            elif isinstance(p, ast.MatchSequence) and len(
                    p.patterns) == len(parts) and not any(
                    isinstance(x, ast.MatchStar) for x in p.patterns):
                cs, bound = [], []
                for x, part in zip(p.patterns, parts):
                    k, b = matches(x, part)
                    cs += [] if k is None else [k]
                    bound += b
                cond = None if not cs else cs[0] if len(cs) == 1 else \
                    ast.BoolOp(ast.And(), cs)
            elif isinstance(p, ast.MatchAs) and p.pattern is None and \
                    p.name is None:
                cond, bound = None, []
            else:
                raise Unclear
            body = list(c.body)
            if c.guard is not None and bound:
                # the names are bound before the guard is asked
                if cond is not None:
                    raise Unclear
                rest = [ast.Assign([store(n)], e) for n, e in bound] + [
                    ast.If(c.guard, body, rest)]
                continue
            if c.guard is not None:
                cond = c.guard if cond is None else ast.BoolOp(
                    ast.And(), [cond, c.guard])
            body = [ast.Assign([store(n)], e) for n, e in bound] + body
            rest = body if cond is None else [ast.If(cond, body, rest)]
        return before + (rest or [ast.Pass()])

    # ------------------------------------------------------------- while
    def visit_While(self, s):
        self.generic_visit(s)
        new = self.loop(s)
        return s if new is None else self.placed(new, s)

    def loop(self, s):
        if s.orelse or not s.body:
            return None
        t, first, rest = s.test, s.body[0], s.body[1:]
        if isinstance(t, ast.Constant) and t.value in (True, 1):
            return self.endless(s, first, rest)
        if isinstance(t, ast.Compare) and len(t.ops) == 1 and isinstance(
                t.ops[0], ast.IsNot) and isinstance(
                t.left, ast.NamedExpr) and self.is_next(
                t.left.value, 2) and isinstance(
                t.comparators[0], ast.Constant) and \
                t.comparators[0].value is None and isinstance(
                t.left.value.args[1], ast.Constant) and \
                t.left.value.args[1].value is None:
            it = t.left.value.args[0]
            if it.id not in names(s.body):
                return [ast.For(t.left.target, it, s.body, [])]
            return None
        if isinstance(t, ast.Name) and isinstance(first, ast.Assign) and \
                len(first.targets) == 1 and isinstance(
                first.targets[0], ast.Tuple) and isinstance(
                first.value, ast.Name) and first.value.id == t.id:
            el = first.targets[0].elts
            if len(el) == 2 and isinstance(el[1], ast.Starred) and \
                    isinstance(el[1].value, ast.Name) and \
                    el[1].value.id == t.id and not own(
                        rest, ast.Break) and t.id not in names(
                        rest + [el[0]]):
                return [ast.For(el[0], load(t.id), rest or [ast.Pass()], []),
                        ast.Assign([store(t.id)], ast.List([], ast.Load()))]
        return self.countdown(s)

    def is_next(self, e, n):
        return isinstance(e, ast.Call) and isinstance(
            e.func, ast.Name) and e.func.id == "next" and not e.keywords \
            and len(e.args) == n and isinstance(e.args[0], ast.Name)

    def endless(self, s, first, rest):
        if isinstance(first, ast.If) and not first.orelse and len(
                first.body) == 1 and isinstance(first.body[0], ast.Break):
            new = ast.While(negated(first.test), rest or [ast.Pass()], [])
            self.placed([new], s)
            return self.loop(new) or [new]
        if isinstance(first, ast.Try) and len(first.body) == 1 and not \
                first.finalbody and len(first.handlers) == 1 and isinstance(
                first.body[0], ast.Assign) and len(
                first.body[0].targets) == 1 and self.is_next(
                first.body[0].value, 1):
            h = first.handlers[0]
            it = first.body[0].value.args[0]
            if isinstance(h.type, ast.Name) and h.type.id == \
                    "StopIteration" and len(h.body) == 1 and isinstance(
                    h.body[0], ast.Break) and it.id not in names(
                    first.orelse + rest):
                return [ast.For(first.body[0].targets[0], it,
                                first.orelse + rest or [ast.Pass()], [])]
        return None

    def countdown(self, s):
        t = s.test
        if isinstance(t, ast.Name):
            v, op, end = t, ast.Gt(), ast.Constant(0)
        elif isinstance(t, ast.Compare) and len(t.ops) == 1:
            v, op, end = t.left, t.ops[0], t.comparators[0]
            if isinstance(op, (ast.Lt, ast.LtE)):
                v, end = end, v
                op = ast.Gt() if isinstance(op, ast.Lt) else ast.GtE()
        else:
            return None
        if not isinstance(op, (ast.Gt, ast.GtE)) or not isinstance(
                v, ast.Name) or own(s.body, ast.Break):
            return None

        def steps(x):
            return isinstance(x, ast.AugAssign) and isinstance(
                x.op, ast.Sub) and isinstance(x.target, ast.Name) and \
                x.target.id == v.id and isinstance(
                x.value, ast.Constant) and x.value.value == 1
        if steps(s.body[0]):
            body, early = s.body[1:], 1
        elif steps(s.body[-1]) and not own(s.body, ast.Continue):
            body, early = s.body[:-1], 0
        else:
            return None
        if written(body) & (names([end]) | {v.id}):
            return None
        n = self.fresh()

        def minus(e, k):
            return ast.BinOp(e, ast.Sub(), ast.Constant(k)) if k else e
        last = 1 if isinstance(op, ast.GtE) else 0   # v afterwards: end-last
        return [
            ast.Assign([store(n)], load(v.id)),
            ast.For(store(v.id), ast.Call(load("range"), [
                minus(load(n), early),
                minus(copy.deepcopy(end), last + early),
                ast.UnaryOp(ast.USub(), ast.Constant(1))], []),
                body or [ast.Pass()], []),
            ast.Assign([store(v.id)], ast.Call(load("min"), [
                load(n), minus(copy.deepcopy(end), last)], []))]


def desugared(tree):
    if any(isinstance(x, (ast.Match, ast.While)) for x in ast.walk(tree)):
        tree = Desugar().visit(tree)
    return tree
