"""Containers that outlive a call

A dictionary, list or set made once -- with a module, with a class or as the
default of a parameter -- and changed by functions holds what earlier calls
left in it: nothing is known about its content when a function starts.
"""
import ast

CHANGES = {"append", "extend", "insert", "add", "update", "setdefault",
           "pop", "popitem", "remove", "discard", "clear", "sort", "reverse",
           "appendleft", "extendleft", "intersection_update",
           "difference_update", "symmetric_difference_update", "move_to_end",
           "subtract", "__setitem__"}
MAKERS = {"dict", "list", "set", "defaultdict", "OrderedDict", "Counter",
          "deque", "WeakKeyDictionary", "WeakValueDictionary", "ChainMap",
          "bytearray"}
FUNCTIONS = (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda)


def container(e):
    if isinstance(e, (ast.Dict, ast.List, ast.Set, ast.DictComp,
                      ast.ListComp, ast.SetComp)):
        return True
    if isinstance(e, ast.Call):
        f = e.func
        return (f.id if isinstance(f, ast.Name) else getattr(
            f, "attr", "")) in MAKERS
    if isinstance(e, ast.BinOp):
        return container(e.left)
    return False


def functions(tree):
    return [n for n in ast.walk(tree) if isinstance(n, FUNCTIONS)]


def changed(body, hit, aliases=True):
    """is what `hit` recognises changed in place within these nodes?"""
    names = set()

    def is_it(x):
        return hit(x) or isinstance(x, ast.Name) and x.id in names
    nodes = [n for b in body for n in ast.walk(b)]
    if aliases:
        for n in nodes:
            if isinstance(n, ast.Assign) and hit(n.value):
                names.update(t.id for t in n.targets
                             if isinstance(t, ast.Name))
            elif isinstance(n, ast.NamedExpr) and hit(n.value):
                names.add(n.target.id)
    for n in nodes:
        if isinstance(n, ast.Subscript) and isinstance(
                n.ctx, (ast.Store, ast.Del)):
            x = n.value
            while isinstance(x, ast.Subscript):
                x = x.value
            if is_it(x):
                return True
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) \
                and n.func.attr in CHANGES:
            x = n.func.value
            while isinstance(x, ast.Subscript):
                x = x.value
            if is_it(x):
                return True
        if isinstance(n, ast.AugAssign) and is_it(n.target):
            return True
    return False


def bound(fn):
    """names a function binds itself"""
    a = fn.args
    out = {x.arg for x in a.posonlyargs + a.args + a.kwonlyargs}
    out.update(x.arg for x in (a.vararg, a.kwarg) if x is not None)
    if isinstance(fn, ast.Lambda):
        return out
    free = {m for n in ast.walk(fn) if isinstance(n, ast.Global)
            for m in n.names}
    for n in ast.walk(fn):
        if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
            out.add(n.id)
    return out - free


def inside(fn):
    return [fn.body] if isinstance(fn, ast.Lambda) else fn.body


def name_kept(repo, module, name, value):
    """a name of a module"""
    for m in repo.modules.values():
        if m is module:
            here = name
        else:
            here = [n for n, d in m.defs.items()
                    if d == ("from", module.name, name)]
            if not here:
                continue
            here = here[0]
        for fn in functions(m.tree):
            if any(isinstance(n, ast.Global) and here in n.names
                   for n in ast.walk(fn)):
                return True
            if container(value) and here not in bound(fn) and changed(
                    inside(fn), lambda x: isinstance(
                        x, ast.Name) and x.id == here):
                return True
    return False


def default_kept(fn, name, value):
    """the default of a parameter"""
    if not container(value):
        return False
    for n in ast.walk(fn):
        if isinstance(n, ast.Assign) and any(
                isinstance(t, ast.Name) and t.id == name
                for t in n.targets):
            return False
    return changed(inside(fn), lambda x: isinstance(
        x, ast.Name) and x.id == name)


def attribute_kept(repo, cls, name, value):
    """an attribute of a class"""
    if not container(value):
        return False

    def hit(x):
        return isinstance(x, ast.Attribute) and x.attr == name
    for s in cls.body:
        if isinstance(s, ast.FunctionDef) and s.name == "__init__":
            for n in ast.walk(s):
                if hit(n) and isinstance(n.ctx, ast.Store):
                    return False
    return any(changed(inside(fn), hit) for m in repo.modules.values()
               for fn in functions(m.tree))
