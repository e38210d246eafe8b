"""Canonical comparison of two extracted sets of obligations.

A record is (kind, quantifiers, guard, polynomial).  Both sides are brought
into a canonical form (points split off, guards separated from the relation,
bound names canonical, scale and sign fixed) and then compared as maps
relation -> condition."""
import itertools
from fractions import Fraction

from . import terms as tm
from .terms import (FALSE, NONE, TRUE, Poly, a_eq0, a_lt0, as_poly, as_term,
                    b_and, b_atoms, b_ite, b_not, b_or, b_restrict, bv,
                    is_num, lit, mk, neg, rename_ids, sub, subst, t_restrict)

MAXSPLIT = 14


class Rec:
    __slots__ = ("kind", "q", "g", "p", "name", "loc", "fn")

    def __init__(self, kind, q, g, p, name, loc, fn=""):
        self.kind, self.q, self.g, self.p = kind, tuple(q), g, p
        self.name, self.loc, self.fn = name, loc, fn

    def w(self, **k):
        r = Rec(self.kind, self.q, self.g, self.p, self.name, self.loc,
                self.fn)
        for a, v in k.items():
            setattr(r, a, v)
        return r


# ------------------------------------------------------------------- care
def _diff_const(p, q):
    d = sub(p, q)
    return d.args[1] if is_num(d) else None


def holds_object(t):
    """t is the on/off or investment data of a flow: an object or None"""
    return t.op == "attr" and (
        t.args[1] == "investment" or t.args[1] == "nonconvex" and not (
            t.args[0].op == "attr" and t.args[0].args[1] == "investment"))


BOOL = tm.sym("mod:builtins.bool")
# arguments that have to be numbers
NUMBERS = {tm.sym("ARG:initial_status"),
           tm.attr(tm.sym("SELF"), "initial_status")}


def exclusions(atoms):
    """conjunction of facts relating the given atoms"""
    at = sorted(atoms, key=lambda a: a.key)
    out = TRUE
    isn = {}
    for a in at:
        if a.op == "is":
            x, y = a.args
            c, t = (x, y) if tm.is_const(x) else (y, x)
            if tm.is_const(c):
                isn.setdefault(t, []).append((c, a))
        elif a.op == "eq":
            x, y = a.args
            c, t = (x, y) if tm.is_const(x) else (y, x)
            if tm.is_const(c):
                isn.setdefault(t, []).append((c, a))
        elif a.op == "truthy":
            t = a.args[0]
            isn.setdefault(t, []).append((None, a))
            if t.op == "call" and t.args[0] is tm.sym("valid_sequence") \
                    and t.args[1]:
                isn.setdefault(t.args[1][0], []).append((None, a))
        elif a.op == "isinstance":
            isn.setdefault(a.args[0], []).append((None, a))
        elif a.op == "in":
            t = a.args[1]
            isn.setdefault(t, []).append((None, a))
            x = tm.mk("truthy", t)
            if x in atoms:
                out = b_and(out, b_or(b_not(lit(a)), lit(x)))
            if t.op == "attr" and t.args[0].op == "sym":
                for x in (tm.mk("hasattr", tm.sym("M"),
                                tm.const(t.args[0].args[0])),
                          tm.mk("hasattr", t.args[0], tm.const("*"))):
                    if x in atoms:
                        out = b_and(out, b_or(b_not(lit(a)), lit(x)))
    for t, lst in isn.items():
        # None has no dimensions
        dims = tm.call(tm.sym("len"), [tm.call(tm.sym("numpy.shape"), [t])])
        for b in at if any(c is NONE for c, _ in lst) else ():
            if b.op in ("lt0", "eq0") and dims.key in b.key and tm.subst(
                    lit(b), {dims: tm.ZERO}) is FALSE:
                out = b_and(out, *[b_not(b_and(lit(a), lit(b)))
                                   for c, a in lst if c is NONE])
        for n, (c, a) in enumerate(lst):
            for c2, a2 in lst[n + 1:]:
                if a is a2:
                    continue
                if c is not None and c2 is not None and c is not c2:
                    out = b_and(out, b_not(b_and(lit(a), lit(a2))))
                elif c is NONE and c2 is None or c is None and c2 is NONE:
                    out = b_and(out, b_not(b_and(lit(a), lit(a2))))
                    if holds_object(t) and "truthy" in (a.op, a2.op) \
                            and "is" in (a.op, a2.op):
                        # an object of this package or None
                        out = b_and(out, b_or(lit(a), lit(a2)))
    inst = [a for a in at if a.op == "isinstance"]
    for n, a in enumerate(inst):
        if a.args[1].op != "cls":
            continue
        if a.args[0].op == "tuple":
            out = b_and(out, b_not(lit(a)))
        # instances of the repository's classes are true, and no numbers
        t = tm.mk("truthy", a.args[0])
        if t in atoms:
            out = b_and(out, b_or(b_not(lit(a)), lit(t)))
        for b in inst:
            if b.args[0] is a.args[0] and b.args[1].op == "sym":
                out = b_and(out, b_not(b_and(lit(a), lit(b))))
    for a in at:
        # bool has two instances; a number is true unless it is zero
        if a.op == "isinstance" and a.args[1] is BOOL:
            t = tm.mk("truthy", a.args[0])
            for c, v in ((tm.PYTRUE, True), (tm.PYFALSE, False)):
                i = tm.a_is(a.args[0], c)
                if any(x in atoms for x in tm.b_atoms(i)):
                    out = b_and(out, b_or(b_not(i), lit(a)))
                    if t in atoms:
                        out = b_and(out, b_or(b_not(lit(a)), tm.b_ite(
                            i, lit(t) if v else b_not(lit(t)),
                            b_not(lit(t)) if v else lit(t))))
        elif a.op == "truthy":
            z = tm.a_eq0(a.args[0])
            if any(x in atoms for x in tm.b_atoms(z)):
                out = b_and(out, b_not(b_and(lit(a), z)))
                if a.args[0] in NUMBERS:
                    out = b_and(out, b_or(lit(a), z))
    num = [a for a in at if a.op in ("lt0", "eq0")]
    for a in num:
        # a number of elements is positive if there are some
        r = tm.counted(a.args[0])
        if r is None or r[2] is FALSE or r[0] * r[1] >= 0:
            continue
        if a.op == "eq0" or r[1] < 0:
            out = b_and(out, b_or(b_not(lit(a)), r[2]))
        else:
            out = b_and(out, b_or(lit(a), r[2]))
        if a.op == "lt0" and r[1] < 0 and r[0] == 1:
            for b in num:
                if b.op == "eq0" and b.args[0] in (a.args[0], neg(
                        a.args[0])):
                    out = b_and(out, b_or(lit(a), lit(b), b_not(r[2])))
    for n, a in enumerate(num):
        for b in num[n + 1:]:
            for A, B in ((a, b), (b, a)):
                p, q = A.args[0], B.args[0]
                d = _diff_const(p, q)     # p = q + d
                if d is not None:
                    if A.op == B.op == "lt0" and d >= 0:
                        out = b_and(out, b_or(b_not(lit(A)), lit(B)))
                    elif A.op == B.op == "eq0" and d != 0:
                        out = b_and(out, b_not(b_and(lit(A), lit(B))))
                    elif A.op == "lt0" and B.op == "eq0":
                        # q == 0 -> p = d
                        out = b_and(out, b_or(
                            b_not(lit(B)), lit(A) if d < 0
                            else b_not(lit(A))))
                d = _diff_const(p, neg(q))  # p = d - q
                if d is not None:
                    if A.op == B.op == "lt0" and d >= 0:
                        out = b_and(out, b_not(b_and(lit(A), lit(B))))
                        for e in num if d == 0 and A is a else ():
                            if e.op == "eq0" and 0 in (
                                    _diff_const(e.args[0], p),
                                    _diff_const(e.args[0], q)):
                                # numbers are totally ordered
                                out = b_and(out, b_or(lit(A), lit(B),
                                                      lit(e)))
                    elif A.op == B.op == "eq0" and d != 0:
                        out = b_and(out, b_not(b_and(lit(A), lit(B))))
                    elif A.op == "lt0" and B.op == "eq0":
                        out = b_and(out, b_or(
                            b_not(lit(B)), lit(A) if d < 0
                            else b_not(lit(A))))
                f = counted_fact(A, B)
                if f is not TRUE:
                    out = b_and(out, f)
    eqs = [a for a in num if a.op == "eq0"]
    for n, a in enumerate(eqs[:12]):
        # two equations that give a third one
        for m, b in enumerate(eqs[n + 1:12], n + 1):
            for s in (sub(a.args[0], b.args[0]),
                      tm.add(a.args[0], b.args[0])):
                for c in eqs[m + 1:12]:
                    if c.args[0] is s or neg(c.args[0]) is s:
                        x, y, z = lit(a), lit(b), lit(c)
                        out = b_and(out, *[b_not(b_and(b_not(r), *[
                            v for v in (x, y, z) if v is not r]))
                            for r in (x, y, z)])
    for t in isn:
        # the length of what is empty
        some, n = tm.mk("truthy", t), tm.call(tm.sym("len"), [t])
        if some not in atoms:
            continue
        for b in num:
            if n.key not in b.key:
                continue
            z = tm.subst(lit(b), {n: tm.ZERO})
            if z is TRUE or z is FALSE:
                out = b_and(out, b_or(lit(some), lit(b) if z is TRUE
                                      else b_not(lit(b))))
            if b.args[0] in (n, neg(n)):
                out = b_and(out, b_or(b_not(lit(some)), lit(b) if
                                      b.op == "lt0" and b.args[0] is neg(n)
                                      else b_not(lit(b))))
    return b_and(out, count_facts(num))


def count_facts(num):
    """facts between conditions on sums of the same numbers of elements"""
    rows = {}
    for a in num:
        c, ks = 0, {}
        for (q, g, at), k in tm.as_poly(a.args[0]).terms.items():
            if at or not q and g is not TRUE:
                break
            if q:
                ks[q, g] = k
            else:
                c = k
        else:
            if ks and len({k > 0 for k in ks.values()}) == 1:
                rows[a] = (c, ks)
    out, left = TRUE, dict(rows)
    while left:
        a = next(iter(left))
        todo, same = [a], {}
        while todo:
            b = todo.pop()
            if b in left:
                same[b] = left.pop(b)
                todo += [d for d, (_, ks) in left.items()
                         if ks.keys() & same[b][1].keys()]
        ns = list({n: 1 for _, ks in same.values() for n in ks})
        if not 1 < len(ns) < 4:
            continue
        top = max(int(abs(c) / min(abs(k) for k in ks.values())) + 2
                  for c, ks in same.values())
        if top > 5:
            continue
        some = {n: tm.exists(*n) for n in ns}
        cases = tm.FALSE
        for v in itertools.product(range(top + 1), repeat=len(ns)):
            v = dict(zip(ns, v))
            g = TRUE
            for n in ns:
                g = b_and(g, some[n] if v[n] else b_not(some[n]))
            for b, (c, ks) in same.items():
                x = c + sum(k * v[n] for n, k in ks.items())
                g = b_and(g, lit(b) if (x < 0 if b.op == "lt0" else x == 0)
                          else b_not(lit(b)))
            cases = b_or(cases, g)
        out = b_and(out, cases)
    return out


_counted = {}


def counted_fact(A, B):
    """facts between two conditions: on numbers of elements of counted sets,
    or on values of a sequence that does not fall"""
    r = _counted.get((A, B))
    if r is None:
        r = _counted[(A, B)] = b_and(_integer_fact(A, B), _rising_fact(A, B))
    return r


def _integer_fact(A, B):
    p, q = A.args[0], B.args[0]
    if tm._linear_int(p) is None or tm._linear_int(q) is None:
        return TRUE
    if A.op == "eq0":
        lo, hi = tm._bounds(*tm._linear_int(q))
        for e in (tm.add(q, p), sub(q, p)):
            l, h = tm._bounds(*tm._linear_int(e))
            lo = max((x for x in (lo, l) if x is not None), default=None)
            hi = min((x for x in (hi, h) if x is not None), default=None)
        no = b_not(lit(A))
        if B.op == "lt0":
            if hi is not None and hi < 0:
                return b_or(no, lit(B))
            if lo is not None and lo >= 0:
                return b_or(no, b_not(lit(B)))
        elif lo is not None and lo > 0 or hi is not None and hi < 0:
            return b_or(no, b_not(lit(B)))
        elif lo == hi == 0:
            return b_or(no, lit(B))
    elif B.op == "lt0":
        out = TRUE
        lo, hi = tm._bounds(*tm._linear_int(sub(p, q)))
        if lo is not None and lo >= 0:          # p >= q
            out = b_and(out, b_or(b_not(lit(A)), lit(B)))
        lo, hi = tm._bounds(*tm._linear_int(tm.add(p, q)))
        if lo is not None and lo >= -1:
            out = b_and(out, b_not(b_and(lit(A), lit(B))))
        if hi is not None and hi < 0:
            out = b_and(out, b_or(lit(A), lit(B)))
        return out
    return TRUE


def _rising_fact(A, B):
    """p = q + c (Y[i] - Y[j]) with i after j: p < 0 implies q < 0"""
    if A.op != "lt0" or B.op != "lt0":
        return TRUE
    plus = minus = None
    for (q, g, atoms), c in tm.as_poly(sub(A.args[0], B.args[0])
                                       ).terms.items():
        if q or g is not TRUE or len(atoms) != 1 or atoms[0][1] != 1:
            return TRUE
        y = atoms[0][0]
        if y.op != "idx" or len(y.args[1]) != 1 or not tm.rising(y.args[0]):
            return TRUE
        if c > 0 and plus is None:
            plus = (y, c)
        elif c < 0 and minus is None:
            minus = (y, -c)
        else:
            return TRUE
    if not plus or not minus or plus[1] != minus[1] or \
            plus[0].args[0] is not minus[0].args[0]:
        return TRUE
    i, j = plus[0].args[1][0], minus[0].args[1][0]
    last = sub(tm.mk("card", "PERIODS"), tm.ONE)
    if i is not last:
        d = tm._linear_int(sub(i, j))
        lo = tm._bounds(*d)[0] if d is not None else None
        if lo is None or lo < 0:
            return TRUE
    return b_or(b_not(lit(A)), lit(B))


def atoms_of(*guards):
    s = set()
    for g in guards:
        s |= b_atoms(g)
    return s


def g_equal(a, b, assume=TRUE):
    if a is b:
        return True
    c = b_and(exclusions(atoms_of(a, b, assume)), assume)
    return b_and(a, c) is b_and(b, c)


def g_implies(a, b, assume=TRUE):
    c = b_and(exclusions(atoms_of(a, b, assume)), assume)
    return b_and(a, c, b_not(b)) is FALSE


# ------------------------------------------------- simplification of guards
def compose(f, atom, g):
    """replace atom by guard g in f"""
    return b_ite(g, b_restrict(f, atom, True), b_restrict(f, atom, False))


def any_simplify(q, g):
    """`some element satisfies P` is implied by P of a bound element"""
    for a in sorted(b_atoms(g), key=lambda x: x.key):
        if a.op != "any":
            continue
        c = a.args[0]
        if c.op != "comp" or len(c.args[1]) != 1:
            continue
        q2, g2, e = c.args[1][0]
        inst = _instances(q2, q)
        for m in inst:
            pi = rename_ids(b_and(g2, e) if tm.is_guard(e) else g2, m)
            g = compose(g, a, b_or(lit(a), pi))
    return g


def bound_counted(q, *guards):
    """a bound element is one of the elements that are counted"""
    out = TRUE
    for a in atoms_of(*guards) if q else ():
        if a.op not in ("lt0", "eq0"):
            continue
        for (q2, g2, at), k in as_poly(a.args[0]).terms.items():
            if q2 and not at:
                for m in _instances(q2, q):
                    out = b_and(out, b_or(b_not(rename_ids(g2, m)),
                                          tm.exists(q2, g2)))
    return out


def _instances(q2, q):
    """maps from the ids of q2 to ids of q with equal domains"""
    res = [{}]
    for (i, d, ar, so) in q2:
        new = []
        for m in res:
            d2 = rename_ids(d, m)
            for (j, dj, _, _) in q:
                if dj is d2:
                    new.append({**m, i: j})
        res = new
    return res


def trivial_exists(g, assume):
    """any(exists[True for x in D]) : index sets are not empty"""
    return g


_flat_memo = {}


def flatten(g):
    """pull conditions nested inside guard atoms out into the guard"""
    r = _flat_memo.get(g)
    if r is not None:
        return r
    r = g
    for _ in range(64):
        nested = None
        for a in sorted(b_atoms(r), key=lambda x: x.key):
            if a.op in ("any",):
                continue
            inner = [x for y in tm._walk_args(a.args)
                     for x in tm.t_atoms(y)]
            inner = [x for x in inner
                     if not any(i.startswith("#") for i in x.free)]
            if inner:
                nested = min(inner, key=lambda x: x.key)
                break
        if nested is None:
            break
        r = b_ite(lit(nested), t_restrict(r, nested, True),
                  t_restrict(r, nested, False))
    _flat_memo[g] = r
    return r


def flatten_poly(p):
    """conditions inside guards, domains and factors of the monomials are
    pulled into the monomial's guard"""
    P = as_poly(p)
    R = Poly()
    changed = False
    for (q, g, atoms), c in P.terms.items():
        g2 = flatten(g)
        if g2 is not g:
            changed = True
        own = {x[0] for x in q}
        todo = [(q, g2, atoms, c)]
        n = 0
        while todo:
            q1, g1, a1, c1 = todo.pop()
            nested = set()
            for x in [y[1] for y in q1] + [a for a, _ in a1]:
                for at in tm.t_atoms(x):
                    if all(not i.startswith("#") or i in own
                           for i in at.free):
                        nested.add(at)
            if not nested or n > 200:
                R.iadd_term(q1, g1, a1, c1)
                continue
            n += 1
            changed = True
            at = min(nested, key=lambda x: x.key)
            for v in (True, False):
                gg = b_and(t_restrict(g1, at, v),
                           lit(at) if v else b_not(lit(at)))
                if gg is FALSE:
                    continue
                qq = tuple((i, t_restrict(d, at, v), ar, so)
                           for i, d, ar, so in q1)
                fac = tm.p_const(1)
                for a, k in a1:
                    x = t_restrict(a, at, v)
                    f = as_poly(x) if k > 0 else as_poly(tm.inverse(x))
                    for _ in range(abs(k)):
                        fac = tm.p_mul(fac, f)
                for (q3, g3, a3), c3 in fac.terms.items():
                    todo.append((tuple(sorted(qq + q3, key=lambda x: x[0])),
                                 b_and(gg, g3), a3, c1 * c3))
    return as_term(R) if changed else p


# ------------------------------------------------------------------ records
def content(p):
    """positive rational content and sign normalisation of a poly term"""
    P = as_poly(p)
    cs = [abs(c) for c in P.terms.values()]
    if not cs:
        return Fraction(1)
    from math import gcd
    num = 0
    den = 1
    for c in cs:
        num = gcd(num, c.numerator)
        den = den * c.denominator // gcd(den, c.denominator)
    return Fraction(num, den)


def scale(p, k):
    return as_term(Poly().iadd(as_poly(p), scale=Fraction(1) / k))


# quantities that are positive by their meaning
POSITIVE = {"nominal_capacity", "nominal_storage_capacity"}


def no_quotients(p, kind):
    """a == b/c as a*c == b (a <= b/c for a positive c only)"""
    for _ in range(4):
        den = {}
        for (q, g, at), c in as_poly(p).terms.items():
            ids = {x[0] for x in q}
            for a, k in at:
                if k < 0 and not a.free & ids and (
                        kind == "eq" or a.op == "attr" and
                        a.args[1] in POSITIVE):
                    den[a] = min(k, den.get(a, 0))
        if not den:
            return p
        for a, k in sorted(den.items(), key=lambda x: x[0].key):
            p = tm.mul(p, tm.power(a, tm.const(-k)))
    return p


def one_denominator(p):
    """x + y/(z - 1) as (x*z - x + y)/(z - 1)"""
    for _ in range(4):
        P = as_poly(p)
        den = {}
        for (q, g, at), c in P.terms.items():
            ids = {x[0] for x in q}
            for a, k in at:
                if k < 0 and a.op == "poly" and not a.free & ids:
                    den[a] = min(k, den.get(a, 0))
        todo = [(a, k) for a, k in den.items()
                if any(dict(at).get(a, 0) != k for _, _, at in P.terms)]
        if not todo:
            return p
        a, k = min(todo, key=lambda x: x[0].key)
        f = as_poly(a)
        R = Poly()
        for (q, g, at), c in P.terms.items():
            have = dict(at).get(a, 0)
            one = Poly()
            one.iadd_term(q, g, tuple(x for x in at if x[0] is not a), c)
            for _ in range(have - k):
                one = tm.p_mul(one, f)
            R.iadd(one)
        if not R.terms:
            return tm.ZERO
        p = tm.mul(as_term(R), tm.power(a, tm.const(k)))
    return p


def outer_atoms(p):
    return [a for a in sorted(tm.t_atoms(p), key=lambda a: a.key)
            if not any(i.startswith("#") for i in a.free)]


def points_in(g, q):
    """constant points the guard distinguishes: {sort: {term}}"""
    out = {}
    qs = {x[0]: x for x in q}
    for a in b_atoms(g):
        if a.op != "eq0":
            continue
        for i in a.free:
            if i in qs and qs[i][2] == 1:
                v = tm._solve_for(a.args[0], i)
                if v is not None and not v.free:
                    out.setdefault(qs[i][3], set()).add(v)
    return out


def split_points(r, points, assume):
    """split a record at distinguished points of its bound naturals"""
    out = [r]
    for (i, dom, ar, sort) in r.q:
        if ar != 1 or not sort.startswith("nat"):
            continue
        full = dom.op == "attr"
        pts = set(points.get(sort, ())) if full else set()
        var = bv(i, 0, sort)
        for c in sorted(pts, key=lambda t: t.key):
            new = []
            for x in out:
                if not any(z[0] == i for z in x.q):
                    new.append(x)
                    continue
                if i not in x.p.free and i not in x.g.free:
                    new.append(x)
                    continue
                e = a_eq0(sub(var, c))
                if e is TRUE or e is FALSE:
                    new.append(x)
                    continue
                m = {var: c}
                q1 = tuple((j, subst(d, m), a_, s_) for j, d, a_, s_ in x.q
                           if j != i)
                at = e.args[0] if e.op == "bdd" else None
                g1 = subst(b_restrict(x.g, at, True), m)
                if dom is tm.attr(tm.sym("M"), "PERIODS"):
                    g1 = b_and(g1, tm.a_lt0(sub(c, tm.mk(
                        "card", "PERIODS"))))
                p1 = subst(t_restrict(x.p, at, True), m)
                new.append(x.w(q=q1, g=g1, p=p1))
                new.append(x.w(g=b_and(x.g, b_not(e)),
                               p=t_restrict(x.p, at, False)))
            out = new
    return [x for x in out if x.g is not FALSE]


def expand(r, assume, depth=0):
    """Shannon expansion over the conditions inside the relation"""
    if r.g is FALSE or b_and(r.g, assume) is FALSE:
        return []
    at = outer_atoms(r.p)
    if not at or depth > MAXSPLIT:
        return [r]
    a = at[0]
    out = []
    for v in (True, False):
        g = b_and(r.g, lit(a) if v else b_not(lit(a)))
        if g is FALSE:
            continue
        c = exclusions(atoms_of(g, assume))
        if b_and(g, c, assume) is FALSE:
            continue
        out += expand(r.w(g=g, p=t_restrict(r.p, a, v)), assume, depth + 1)
    return out


def one_point(r):
    """equalities required by the guard are substituted"""
    q, m = tm.by_period(r.q, [r.g, r.p])
    if m:
        r = r.w(q=q, g=subst(r.g, m), p=subst(r.p, m))
    while True:
        for (i, dom, ar, sort) in r.q:
            if ar != 1:
                continue
            hit = None
            for a in sorted(b_atoms(r.g), key=lambda x: x.key):
                if a.op != "eq0" or i not in a.free:
                    continue
                if b_restrict(r.g, a, False) is not FALSE:
                    continue
                e = tm._solve_for(a.args[0], i)
                if e is None or (dom.op != "attr" and dom.op != "range"):
                    continue
                hit = (a, e)
                break
            if hit:
                a, e = hit
                var = bv(i, 0, sort)
                m = {var: e}
                r = r.w(q=tuple((j, subst(d, m), x, y)
                                for j, d, x, y in r.q if j != i),
                        g=subst(b_restrict(r.g, a, True), m),
                        p=subst(r.p, m))
                break
        else:
            return r


def dom_merge(r):
    """(p, t in TIP[p]) with p unused -> t in TIMESTEPS; drop unused"""
    ch = True
    q = list(r.q)
    while ch:
        ch = False
        for x in q:
            i, dom, ar, so = x
            if dom.op == "idx" and tm.is_tip(dom.args[0]) and \
                    dom.args[1][0].op == "bv":
                pi = dom.args[1][0].args[0]
                if any(y[0] == pi for y in q) and pi not in r.p.free and \
                        pi not in r.g.free and not any(
                            pi in y[1].free for y in q if y is not x):
                    q = [y for y in q if y[0] not in (i, pi)] + [
                        (i, tm.timesteps_dom(dom.args[0]), 1, so)]
                    ch = True
                    break
            if i not in r.p.free and i not in r.g.free and not any(
                    i in y[1].free for y in q if y is not x):
                q.remove(x)
                ch = True
                break
    return r.w(q=tuple(q))


def own_restrict(r):
    """a condition repeating the relation itself is vacuous"""
    g = r.g
    if r.kind == "eq":
        e = a_eq0(r.p)
        if e.op == "bdd" and e.args[0] in b_atoms(g):
            g = b_restrict(g, e.args[0], False)
    elif r.kind == "le":
        e = a_lt0(neg(r.p))   # violated: p > 0
        if e.op == "bdd":
            a = e.args[0]
            if a in b_atoms(g):
                g = b_restrict(g, a, e.args[1] is TRUE)
    return r.w(g=g) if g is not r.g else r


def finish(r):
    """canonical key of a record"""
    p = r.p
    if r.kind in ("eq", "le"):
        if is_num(p):
            v = p.args[1]
            if (r.kind == "eq" and v == 0) or (r.kind == "le" and v <= 0):
                return None
        p = one_denominator(no_quotients(p, r.kind))
        k = content(p)
        p = scale(p, k)
        if r.kind == "eq":
            n = neg(p)
            pk, nk = _stable_key(p, r.q), _stable_key(n, r.q)
            if nk < pk:
                p = n
    q = [x for x in r.q if x[0] in p.free or x[0] in r.g.free or any(
        x[0] in y[1].free for y in r.q)]
    q, m = tm.canon_binders(tuple(q), [p], [r.g])
    # depth-independent numbering of the outer binders
    m2 = {x[0]: f"@{n}" for n, x in enumerate(q)}
    q = tuple((m2[i], rename_ids(d, m2), a, s) for i, d, a, s in q)
    return ((r.kind, q, rename_ids(rename_ids(p, m), m2)),
            rename_ids(rename_ids(r.g, m), m2))


def _stable_key(p, q):
    return rename_ids(p, {x[0]: "?" + x[1].key[:40] for x in q}).key


def normalise(recs, points=None, assume=TRUE):
    """-> {key: [guard, [records]]}"""
    points = points or {}
    out = {}
    for r in recs:
        todo = [r.w(g=flatten(b_and(r.g, assume)))]
        work = []
        for x in todo:
            work += split_points(x, points, assume)
        res = []
        for x in work:
            res += expand(x, assume)
        for x in res:
            x = one_point(x)
            x = x.w(g=flatten(x.g))
            for y in expand(x, assume):
                y = own_restrict(y)
                y = y.w(g=any_simplify(y.q, y.g))
                y = dom_merge(y)
                c = exclusions(atoms_of(y.g))
                if b_and(y.g, c) is FALSE:
                    continue
                f = finish(y)
                if f is None:
                    continue
                key, g = f
                e = out.setdefault(key, [FALSE, []])
                e[0] = b_or(e[0], g)
                e[1].append(r)
    return out


def pair_up(recs):
    """p <= 0 and -p <= 0 in the same cases is p == 0"""
    ends = {}
    for key, (g, rs) in recs.items():
        if key[0] in ("le", "eq"):
            f = finish(Rec("eq", key[1], g, key[2], "", None))
            if f is not None:
                ends.setdefault(f[0], []).append((key, f[1], rs))
    out = dict(recs)
    for eq, parts in ends.items():
        les = [x for x in parts if x[0][0] == "le"]
        if not les or len(parts) < 2:
            continue
        had = b_or(*[g for k, g, rs in parts if k[0] == "eq"])
        both = b_or(had, b_and(*[g for k, g, rs in les])
                    if len(les) == 2 else FALSE)
        if both is FALSE:
            continue
        if len(les) == 2:
            out[eq] = [both, [r for x in parts for r in x[2]]]
        for k, g, rs in les:
            rest = b_and(g, b_not(both))
            if rest is FALSE:
                del out[k]
                continue
            for p in (eq[2], neg(eq[2])):
                f = finish(Rec("le", eq[1], rest, p, "", None))
                if f is not None and f[0] == k:
                    out[k] = [f[1], rs]
    return out


def all_points(recs):
    pts = {}
    for r in recs:
        for s, v in points_in(r.g, r.q).items():
            pts.setdefault(s, set()).update(v)
        for a in tm.t_atoms(r.p):
            for s, v in points_in(lit(a), r.q).items():
                pts.setdefault(s, set()).update(v)
    return pts


class Finding:
    def __init__(self, what, key, msg, locs, tags, near=()):
        self.what, self.key, self.msg = what, key, msg
        self.locs, self.tags = locs, set(tags)
        self.near = near


def show_key(key, g):
    kind, q, p = key
    rel = {"eq": " == 0", "le": " <= 0", "integer": " is integer",
           "var": " is a variable",
           "raise": " an error"}.get(kind, "")
    qs = ", ".join(f"{'(' + i + '..)' if ar > 1 else i} in {tm.show(d)}"
                   for i, d, ar, s in q)
    s = f"{tm.show(p)}{rel}"
    if qs:
        s = f"for all {qs}: " + s
    if g is not TRUE:
        s += f"   when {tm.show_guard(g)}"
    return s


def tokens(t, acc=None, seen=None):
    if acc is None:
        acc, seen = set(), set()
    if t in seen:
        return acc
    seen.add(t)
    if t.op == "attr":
        acc.add(t.args[1])
    if t.op == "sym":
        acc.add(t.args[0])
    for x in tm._walk_args(t.args):
        tokens(x, acc, seen)
    return acc


def void(key):
    """condition under which the relation compares empty sums"""
    if key[0] not in ("eq", "le"):
        return FALSE
    out = TRUE
    for (q, g, atoms), c in as_poly(key[2]).terms.items():
        ids = {x[0] for x in q}
        empty = [tm.a_truthy(d) for _, d, _, _ in q if not d.free & ids]
        out = b_and(out, b_or(*[b_not(e) for e in empty]))
    return out


def compare(code, spec, assume=TRUE):
    """both: lists of Rec.  Returns (findings, n_obligations)"""
    pts = all_points(code + spec)
    C = pair_up(normalise(code, pts, assume))
    S = pair_up(normalise(spec, pts, assume))
    out = []
    speckeys = [(tokens(k[2]), {r.name for r in v[1]}, k)
                for k, v in S.items()]

    def nearest(key):
        tk = tokens(key[2])
        best, names = 0, set()
        for t2, n2, k2 in speckeys:
            if k2[0] != key[0] and {k2[0], key[0]} - {"le", "eq"}:
                continue
            u = len(tk | t2)
            sc = len(tk & t2) / u if u else 0
            if sc > best + 1e-9:
                best, names = sc, set(n2)
            elif abs(sc - best) < 1e-9:
                names |= n2
        return names

    bytok = {}
    for tk, ns, k in speckeys:
        for x in varnames(k[2]):
            bytok.setdefault(x, set()).update(ns - GENERIC)

    def resolve(ns, key):
        ns = set(ns)
        if not ns & GENERIC:
            return ns
        ns -= GENERIC
        for x in varnames(key[2]):
            ns |= bytok.get(x, set())
        return ns or {"*"}

    def failing(side):
        """an error is raised at all"""
        return b_or(*[tm.exists(k[1], v[0]) for k, v in side.items()
                      if k[0] == "raise"])

    def covered(key, g, side):
        """an error is raised in these cases, if only by another record"""
        if key[0] != "raise":
            return False
        t = any_simplify(key[1], failing(side))
        d = b_and(g, b_not(t), assume)
        d = b_and(d, bound_counted(key[1], d))
        return d is FALSE or b_and(d, exclusions(atoms_of(d))) is FALSE

    tags = {}
    for key, (g, recs) in S.items():
        names = sorted(resolve({r.name for r in recs}, key))
        for x in names:
            tags[x] = tags.get(x, 0) + 1
        if key not in C and covered(key, g, C):
            continue
        if key not in C:
            if key[0] == "var":
                out.append(Finding("missing", key,
                                   "variable not declared: " + show_key(
                                       key, g), [], names))
                continue
            out.append(Finding("missing", key, "required relation is not "
                               "generated: " + show_key(key, g), [], names))
            continue
        g2, r2 = C[key]
        if key[0] == "var":
            if not g_implies(g, g2):
                out.append(Finding("guard", key, "variable not declared "
                                   "everywhere: " + show_key(key, g)
                                   + " -- declared when "
                                   + tm.show_guard(g2), locs(r2), names))
            continue
        care = b_and(b_not(void(key)), bound_counted(key[1], g, g2))
        if not g_equal(b_and(g, care), b_and(g2, care)) and not (
                covered(key, b_and(g, b_not(g2)), C) and
                covered(key, b_and(g2, b_not(g)), S)):
            out.append(Finding(
                "guard", key, "generated under a different condition: "
                + show_key(key, TRUE) + difference(b_and(g, care), b_and(
                    g2, care), assume), locs(r2), names))
    for key, (g, recs) in C.items():
        if key in S or key[0] == "var" or covered(key, g, S):
            continue
        out.append(Finding("extra", key, "relation not part of the "
                           "documented formulation: " + show_key(key, g),
                           locs(recs), resolve(nearest(key), key)
                           or {"*"}))
    return out, len(S), len(C), tags


def one_case(d, want, facts):
    """a combination of conditions under which `want` holds"""
    lits = []
    while d is not TRUE and d is not FALSE:
        x, hi, lo = d.args
        v = hi is not FALSE
        lits.append((x, v))
        d = hi if v else lo

    def cube(ls):
        return b_and(facts, *[lit(x) if v else b_not(lit(x))
                              for x, v in ls])
    for y in list(lits):
        rest = [z for z in lits if z is not y]
        if tm.b_implies(cube(rest), want):
            lits = rest
    return " and ".join(("" if v else "not ") + "(" + tm.show(x) + ")"
                        for x, v in lits) or "always"


def difference(g, g2, assume=TRUE):
    """cases in which only one of two conditions holds"""
    facts = b_and(exclusions(atoms_of(g, g2, assume)), assume)
    s = ""
    for a, b, text in ((g, g2, "required but not generated"),
                       (g2, g, "generated but not required")):
        d = b_and(a, b_not(b), facts)
        if d is not FALSE:
            s += f" -- {text} when " + one_case(d, b_and(
                a, b_not(b)), facts)
    return s or " -- required when " + tm.show_guard(g)


GENERIC = {"spec", "integrality", "domain"}


def varnames(t, acc=None, seen=None):
    """(block, name) of the model components indexed in t"""
    if acc is None:
        acc, seen = set(), set()
    if t in seen:
        return acc
    seen.add(t)
    if t.op == "idx" and t.args[0].op == "attr" and \
            t.args[0].args[0].op == "sym":
        acc.add(t.args[0])
    for x in tm._walk_args(t.args):
        varnames(x, acc, seen)
    return acc


def locs(recs):
    return sorted({(r.loc[0], r.loc[1], r.fn) for r in recs})


# ------------------------------------------------------------ polynomials
def split_sums(p):
    """remove equality atoms on bound naturals from guards of sums"""
    P = as_poly(p)
    R = Poly()
    again = False
    for (q, g, atoms), c in P.terms.items():
        hit = None
        for a in sorted(b_atoms(g), key=lambda x: x.key):
            if a.op != "eq0":
                continue
            for (i, dom, ar, so) in q:
                if ar == 1 and so.startswith("nat") and i in a.free and \
                        dom.op == "attr":
                    v = tm._solve_for(a.args[0], i)
                    if v is not None:
                        hit = (a, i, so, v)
                        break
            if hit:
                break
        if not hit:
            R.iadd_term(q, g, atoms, c)
            continue
        a, i, so, v = hit
        again = True
        R.iadd_term(q, b_restrict(g, a, False), atoms, c)
        m = {bv(i, 0, so): v}
        q2 = tuple(x for x in q if x[0] != i)
        for sign, gg in ((1, b_restrict(g, a, True)),
                         (-1, b_restrict(g, a, False))):
            g2 = subst(gg, m)
            if g2 is FALSE:
                continue
            for c3, q3, g3, at3 in tm._subst_atoms(atoms, m):
                R.iadd_term(tuple(sorted(q2 + q3, key=lambda x: x[0])),
                            b_and(g2, g3), at3, c * c3 * sign)
    r = as_term(R)
    return split_sums(r) if again else r


def poly_diff(a, b, assume=TRUE):
    """list of residual monomials (q, parts, atoms) of a-b, [] if equal"""
    d = sub(a, b)
    if is_num(d) and d.args[1] == 0:
        return []
    d = split_sums(flatten_poly(d))
    res = _residue(d, assume)
    if res and zero_given(d, assume):
        return []
    if res and clear_denominators(d) is not None:
        d2 = d
        for _ in range(8):
            n = clear_denominators(d2)
            if n is None:
                break
            d2 = n
        if not _residue(d2, assume):
            return []
    return res


def zero_given(d, assume):
    """d is a multiple, or the absolute value, of something that is zero"""
    P = as_poly(d)
    if any(q or g is not TRUE for q, g, _ in P.terms):
        return False
    g = tm.a_eq0(as_term(d))
    return g is not TRUE and tm.b_implies(assume, g)


def clear_denominators(d):
    """d times one of its denominators, None if there is none"""
    P = as_poly(d)
    for (q, g, atoms), c in P.terms.items():
        ids = {x[0] for x in q}
        for a, k in atoms:
            if k < 0 and a.op == "poly" and not (a.free & ids):
                den = a
                break
        else:
            continue
        break
    else:
        return None
    top = max(-k for _, _, at in P.terms for a, k in at if a is den)
    R = Poly()
    f = as_poly(den)
    for (q, g, atoms), c in P.terms.items():
        n = top + sum(k for a, k in atoms if a is den)
        one = Poly()
        one.iadd_term(q, g, tuple((a, k) for a, k in atoms if a is not den),
                      c)
        for _ in range(n):
            one = tm.p_mul(one, f)
        R.iadd(one)
    return as_term(R)


def _residue(d, assume):
    P = Poly()
    for (q, g, atoms), c in as_poly(d).terms.items():
        P.iadd_term(q, any_simplify(q, g), atoms, c)
    P = as_poly(as_term(P))      # bound names depend on the conditions
    groups = {}
    for (q, g, atoms), c in P.terms.items():
        groups.setdefault((q, atoms), []).append((c, any_simplify(q, g)))
    out = []
    for (q, atoms), parts in groups.items():
        care = b_and(exclusions(atoms_of(*[g for _, g in parts], assume)),
                     assume)
        acc = {Fraction(0): care}
        for c, g in parts:
            nd = {}
            for v, h in acc.items():
                hi, lo = b_and(h, g), b_and(h, b_not(g))
                if hi is not FALSE:
                    nd[v + c] = b_or(nd.get(v + c, FALSE), hi)
                if lo is not FALSE:
                    nd[v] = b_or(nd.get(v, FALSE), lo)
            acc = nd
        bad = [(v, g) for v, g in acc.items() if v != 0]
        if bad:
            out.append((q, tuple(bad), atoms))
    return out


def show_res(res, limit=4):
    s = []
    for q, parts, atoms in res[:limit]:
        for c, g in parts:
            s.append(tm._show_mono(q, g, atoms, c))
    if len(res) > limit:
        s.append("...")
    return " + ".join(s)


def raise_facts(it):
    """[(q, g)]: no element of q satisfies g once construction finished"""
    out = []
    for e in it.effects:
        if e.kind == "raise" and e.g is not FALSE:
            out.append((e.q, e.g, it))
    return out


def _any_atoms(q, g, it):
    """the guards `an error was raised` the interpreter builds from (q, g)"""
    out = []
    for k in range(len(q)):
        a = it.exists(q[k:], g)
        if a is not FALSE and a is not TRUE:
            out.append((q[:k], a))
    return out


def without_raise(q, g, facts):
    """guard g under the assumption that no error was raised"""
    for q2, g2, it in facts:
        for m in _instances(q2, q):
            bad = rename_ids(g2, m)
            g = b_and(g, b_not(bad))
            if g is FALSE:
                return g
        for q3, a in _any_atoms(q2, g2, it):
            for m in _instances(q3, q):
                g = b_and(g, b_not(rename_ids(a, m)))
    return g


def clean_poly(p, facts):
    if not facts:
        return p
    P = Poly()
    for (q, g, atoms), c in as_poly(p).terms.items():
        P.iadd_term(q, without_raise(q, g, facts), atoms, c)
    return as_term(P)


def drop_raises(recs, facts):
    if not facts:
        return recs
    out = []
    for r in recs:
        if r.kind == "raise":
            out.append(r)
            continue
        g = without_raise(r.q, r.g, facts)
        if g is not FALSE:
            out.append(r.w(g=g))
    return out


def translated(g):
    """raised while handling an exception: a re-raise with another text"""
    for a in atoms_of(g):
        if a.op == "exc" and b_and(g, b_not(lit(a))) is FALSE:
            return True
    return False


def anyhow(e, it):
    """the error names an index which is read from the variables: without the
    check, reading would raise an error of the same kind"""
    keys = [a for a in b_atoms(e.g) if a.op == "in" and a.args[1].op == "attr"
            and a.args[1].args[0] is tm.sym("M") and a.args[1].args[1] == "flow"]
    g = e.g
    for a in keys:
        g = b_restrict(g, a, True)
    if not keys or g is not FALSE:
        return False
    read = set()
    for c in it.effects:
        if c.kind == "constraint" and c.v[0] != "unknown":
            for _, _, atoms in as_poly(c.v[1]).terms:
                read |= {x for x, _ in atoms}
    return all(tm.idx(a.args[1], (a.args[0],)) in read for a in keys)


def not_after(g, earlier):
    """a guard agreeing with g wherever none of the earlier errors occurred,
    without reference to those"""
    for bad in earlier:
        for x in sorted(b_atoms(bad), key=lambda a: a.key):
            if x.op != "any" or x not in b_atoms(g):
                continue
            c = b_restrict(bad, x, True)
            g = b_or(b_and(c, b_restrict(g, x, False)), b_and(b_not(c), g))
    return g


def for_each(q, g, none=TRUE):
    """an error is raised if there is an element with .. : it is raised for
    each of these elements"""
    if g is FALSE:
        return []
    for x in sorted(b_atoms(g), key=lambda a: a.key):
        if x.op != "any" or x.args[0].op != "comp" or len(
                x.args[0].args[1]) != 1:
            continue
        hi, lo = b_restrict(g, x, True), b_restrict(g, x, False)
        if hi is FALSE or not tm.b_implies(lo, hi):
            continue
        none = b_and(none, b_not(lit(x)))
        if b_and(lo, none, exclusions(atoms_of(lo, none))) is FALSE:
            lo = FALSE
        (q2, g2, body), = x.args[0].args[1]
        m = {i: tm.fresh_id("i") for i, _, _, _ in q2}
        q3 = tuple((m[i], rename_ids(d, m), ar, so) for i, d, ar, so in q2)
        return for_each(q + q3, b_and(hi, rename_ids(
            b_and(g2, body), m))) + for_each(q, lo, none)
    return [(q, g)]


def effects_to_recs(it, kinds=("constraint", "integer", "var", "raise")):
    out, unknown = [], []
    earlier = []
    for e in it.effects:
        if e.kind == "raise" and "raise" in kinds and e.g is not FALSE:
            if e.name != "reraise" and not translated(e.g) and not \
                    anyhow(e, it):
                for q, g in for_each(e.q, not_after(e.g, earlier)):
                    out.append(Rec("raise", q, g, tm.sym("RAISE"), e.name,
                                   e.loc, e.fn))
            for a in [a for _, a in _any_atoms(e.q, e.g, it)] if e.q \
                    else [e.g]:
                earlier.append(not_after(a, earlier))
        if e.kind == "constraint" and "constraint" in kinds:
            if e.v[0] == "unknown":
                unknown.append((e.loc, "constraint " + str(e.name)))
                continue
            out.append(Rec(e.v[0], e.q, e.g, e.v[1], e.name, e.loc, e.fn))
        elif e.kind == "integer" and "integer" in kinds:
            out.append(Rec("integer", e.q, e.g, e.v, e.name, e.loc, e.fn))
        elif e.kind == "var" and "var" in kinds:
            out.append(Rec("var", e.q, e.g, e.v[1], e.name, e.loc, e.fn))
    return out, unknown
