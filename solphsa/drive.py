"""Runs the abstract interpreter over entry points of the repository."""
from . import terms as tm
from .interp import ClassRef, Closure, Interp, M, ObjRef
from .source import Repo
from .terms import sym


def new_interp(repo):
    it = Interp(repo)
    tm.NONE_ELEMENTS[0] = False
    r = repo.find_class("Model")
    it.classmap[M] = ClassRef(*r)
    return it


def cls_of(repo, name):
    r = repo.find_class(name)
    return ClassRef(*r) if r else None


def run_block(repo, name, group="GROUP", steps=("_create",
                                               "_objective_expression"),
              elemclass=None):
    """-> Interp with the effects of building block `name`"""
    it = new_interp(repo)
    c = cls_of(repo, name)
    if c is None:
        raise LookupError("class " + name)
    g = sym(f"{group}:{name}")
    if elemclass:
        it.dom_class[g] = cls_of(repo, elemclass)
    self = ObjRef(sym(name), c)
    it.owner = self
    for s in steps:
        f = it.class_attr(c, s, self)
        if f is None:
            continue
        mark = len(it.effects)
        v = it.call_value(f, [], {"group": g} if s == "_create" else {},
                          None)
        if s != "_create":
            it.emit("return", s, it.safe_term(v))
        it.pc = tm.TRUE
    return it


def dump(it):
    for e in it.effects:
        if e.kind in ("call",):
            continue
        q = ", ".join(f"{i}∈{tm.show(d)}" for i, d, a, s in e.q)
        v = e.v
        if e.kind == "constraint":
            v = f"{e.v[0]}: {tm.show(e.v[1])}"
        elif isinstance(v, tm.T):
            v = tm.show(v)
        elif isinstance(v, tuple):
            v = tuple(tm.show(x) if isinstance(x, tm.T) else x for x in v)
        print(f"{e.kind} {e.name} @{e.loc[1]}\n   ∀ {q}\n   if "
              f"{tm.show_guard(e.g)}\n   {v}")
    print("UNKNOWN", it.unknown)


if __name__ == "__main__":
    import sys
    dump(run_block(Repo(), sys.argv[1],
                   "FGROUP" if "Flow" in sys.argv[1] else "GROUP",
                   elemclass=sys.argv[2] if len(sys.argv) > 2 else None))
