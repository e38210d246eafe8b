"""What is handed over stays as it was

Every function, constructor and block the other units read is read once more,
now for what it changes in place. A change counts when what is changed was
handed over: an argument, something reached from an argument, or the flows,
nodes and parameters of the energy system a model is built from. The object
under construction, the model and what is made within the call may change.
"""
import ast
import signal

from . import compare as cp
from . import interp as ip
from . import kept
from . import terms as tm
from .source import Repo  # noqa: F401
from .terms import T

# how the data of a system may be reached from the model
DATA = {"es", "flows", "nodes", "groups"}
# methods giving access to a part of their object
ACCESS = {"get", "items", "values", "keys", "setdefault", "pop"}
# what is meant to change: (what is done, to what it is done, why)
MEANT = [
    ("store", "size", "constant sequences remember how long they are"),
    ("store", "freq", "a time index is told its frequency"),
    ("call", "inputs", "nodes are connected"),
    ("call", "outputs", "nodes are connected"),
]
SYSTEM = "EnergySystem"


def walk_root(t, q, path=()):
    """the symbols a term is a part of, with the way from there"""
    if not isinstance(t, T):
        return
    if t.op in ("attr",):
        yield from walk_root(t.args[0], q, (t.args[1],) + path)
    elif t.op in ("idx",):
        yield from walk_root(t.args[0], q, ("[]",) + path)
    elif t.op == "nth":
        yield from walk_root(t.args[0], q, ("[]",) + path)
    elif t.op == "bv":
        for i, d, ar, so in q:
            if i == t.args[0]:
                yield from walk_root(d, q, ("[]",) + path)
    elif t.op in ("aslist", "pos", "rangeiter"):
        if t.op == "aslist" and not path:
            return          # a list of its own
        yield from walk_root(t.args[0], q, path)
    elif t.op == "cases":
        for _, x in t.args[0]:
            yield from walk_root(x, q, path)
    elif t.op == "call" and isinstance(t.args[0], T):
        f = t.args[0]
        if f.op == "attr" and f.args[1] in ACCESS:
            yield from walk_root(f.args[0], q, ("[]",) + path)
        elif f is tm.sym("enumerate") or f is tm.sym("zip"):
            for x in t.args[1]:
                yield from walk_root(x, q, path)
    elif t.op == "comp" and path:
        # elements of a list made here may come from elsewhere
        for cq, g, e in t.args[1]:
            yield from walk_root(e, tuple(q) + tuple(cq), path[1:])
    elif t.op == "sym":
        yield t, path


def given(t):
    return t.args[0].startswith(("ARG:", "GIVEN:", "GROUP:", "FGROUP:"))


def constructor_names(repo):
    """attributes the constructors of flows, nodes and options set"""
    out = set()
    for m in repo.modules.values():
        for n in ast.walk(m.tree):
            if isinstance(n, ast.ClassDef) and not n.name.endswith("Block"):
                for f in n.body:
                    if isinstance(f, ast.FunctionDef) and \
                            f.name == "__init__":
                        for x in ast.walk(f):
                            if isinstance(x, ast.Attribute) and isinstance(
                                    x.ctx, ast.Store) and isinstance(
                                        x.value, ast.Name) and \
                                    x.value.id == "self":
                                out.add(x.attr)
    return out


def change(e):
    """(what is done, to which term, name) of an effect"""
    v = e.v
    if e.kind == "call" and isinstance(v, T) and v.op == "call" and \
            isinstance(v.args[0], T) and v.args[0].op == "attr":
        name = v.args[0].args[1]
        if name in kept.CHANGES or len(v.args) > 2 and any(
                k == "inplace" and x is not tm.PYFALSE
                for k, x in v.args[2]):
            return "call", v.args[0].args[0], name
    if e.kind in ("setitem", "delitem"):
        return e.kind, v[0], "[]"
    if e.kind == "store":
        return "store", v[0], str(e.name)
    if e.kind == "delattr":
        return "delattr", v, str(e.name)
    if e.kind == "grown":
        return "grown", v, "+="
    return None


def allowed(how, path, name, root, made_by, set_by_constructors, top):
    last = path[-1] if path else ""
    if how == "store" and name in ("size", "freq"):
        return True
    if how == "call" and last in ("inputs", "outputs") and \
            top == "__init__" and name in ("update", "setdefault"):
        return True
    if how == "setitem" and last in ("inputs", "outputs") and \
            top == "__init__":
        return True
    if root.op == "sym" and root.args[0] == "M":
        if not any(p in DATA for p in path):
            return True
        if how == "store" and path == ("es",) and name == "results":
            return True
        return how == "store" and name not in set_by_constructors
    if given(root):
        if root.args[0].startswith("GIVEN:tsa_parameters"):
            return True     # completed: see the property on them
        if root.args[0].startswith("ARG:") and top.startswith("_") and \
                top != "__init__":
            return True     # what a private function gets is not the user's
        if root.args[0].startswith(("GROUP:", "FGROUP:")):
            return how == "store" and name not in set_by_constructors
        return False
    return True


def entries(repo):
    """functions for users alone: no other function calls them"""
    called = set()
    for m in repo.modules.values():
        for n in ast.walk(m.tree):
            if isinstance(n, ast.Call):
                f = n.func
                called.add(f.id if isinstance(f, ast.Name) else getattr(
                    f, "attr", None))
    for m in repo.modules.values():
        if "console" in m.name:
            continue
        for n, d in m.defs.items():
            if isinstance(d, ast.FunctionDef) and not n.startswith("_") \
                    and n not in called:
                yield m, d


def compare_changes(repo, units, r, skip=()):
    from . import units as un
    names = constructor_names(repo)
    col = []
    ip.Interp.collector = col
    ran = []
    try:
        for u, f in units.items():
            if u in skip:
                continue
            try:
                f(repo)
                ran.append(u)
            except Exception:       # other properties tell
                continue
        n0 = len(ran)
        def enough(*a):
            raise ip.TooLong()
        before = signal.signal(signal.SIGALRM, enough)
        for m, d in entries(repo):
            try:
                signal.setitimer(signal.ITIMER_REAL, 3)
                un.run_function(repo, m, d, True)
                ran.append(d.name)
            except (Exception, ip.TooLong):
                continue
            finally:
                signal.setitimer(signal.ITIMER_REAL, 0)
        signal.signal(signal.SIGALRM, before)
    finally:
        ip.Interp.collector = None
    if n0 < len(units) // 2:
        raise un.Broken("most of the functions are not understood")
    seen = set()
    n = 0
    for it, e, top in col:
        if "/specs/" in str(e.loc[0]) or top is None:
            continue
        c = change(e)
        if c is None:
            continue
        n += 1
        how, t, name = c
        for root, path in walk_root(t, e.q):
            if allowed(how, path, name, root, None, names, top):
                continue
            fn = e.fn if hasattr(e, "fn") else top
            key = (how, name, tm.show(root), path, e.loc)
            if key in seen:
                continue
            seen.add(key)
            what = {"store": f"attribute {name} is set",
                    "setitem": "an entry is set",
                    "delitem": "an entry is deleted",
                    "delattr": f"attribute {name} is deleted",
                    "grown": "it is extended in place",
                    "call": f".{name}() changes it"}[how]
            r.findings.append(cp.Finding(
                "changes", (how, name, tm.show(root), path),
                f"{tm.show(root).split(':')[-1]}"
                f"{'.'.join(('',) + path).replace('.[]', '[..]')} was handed "
                f"over and is changed: {what}", [e.loc + (fn,)], {"changes"}))
    for it in {id(it): it for it, e, top in col}.values():
        r.functions |= {x for x in it.visited_functions
                        if "/specs/" not in str(x)}
    r.spec_n = n + len(ran)
    r.code_n = n
    r.spec_tags = {"changes": r.spec_n}
    r.stats = {"functions and scenarios read": len(ran),
               "changes in place": n}
    return r
