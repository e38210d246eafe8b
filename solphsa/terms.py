"""Hash-consed value terms with a normal form (value numbering).

Terms denote Python / Pyomo values symbolically *by structure*: two program
fragments get the same term when they compute the same arithmetic expression
up to commutativity, associativity, distributivity, naming of bound variables,
order of branches and splitting of sums.  Nothing is executed and no solver is
used; equality of normal forms is pointer equality.

 const(v)                literal
 sym(name)               free symbol (parameter, external object, Pyomo name)
 bv(id, comp, sort)      component of a bound (iteration) variable
 attr/idx/call           uninterpreted field access / subscription / call
 poly                    polynomial with guarded, quantified monomials
 ite-DAG `bdd`           guard: reduced ordered decision diagram over atoms
 cases                   guarded choice between non numeric values
"""
import hashlib
from fractions import Fraction
from functools import reduce
from math import gcd, lcm
from itertools import permutations, count

_table = {}
_uid = count()


class T:
    __slots__ = ("op", "args", "_key", "_free", "_depth", "n")

    def __repr__(self):
        return show(self)

    @property
    def key(self):
        if self._key is None:
            self._key = _mkkey(self)
        return self._key

    @property
    def free(self):
        """ids of bound variables occurring free (canonical ids excluded)"""
        if self._free is None:
            _fill(self)
        return self._free

    @property
    def depth(self):
        if self._depth is None:
            _fill(self)
        return self._depth


def _walk_args(args):
    for a in args:
        if isinstance(a, T):
            yield a
        elif isinstance(a, tuple):
            yield from _walk_args(a)


def mentions(t, x):
    """x is a proper part of t"""
    seen, todo = set(), [t]
    while todo:
        y = todo.pop()
        for a in _walk_args(y.args):
            if a is x:
                return True
            if a.n not in seen:
                seen.add(a.n)
                todo.append(a)
    return False


def _fill(t):
    if t.op == "bv":
        i = t.args[0]
        t._free = frozenset([i])
        t._depth = 0
        return
    f = set()
    d = 0
    for a in _walk_args(t.args):
        f |= a.free
        if a.depth > d:
            d = a.depth
    own = binder_ids(t)
    if own:
        f -= own
        for i in own:
            if i.startswith("#"):
                d = max(d, int(i[1:].split(".")[0]))
    t._free = frozenset(f)
    t._depth = d


def binder_ids(t):
    """bound ids introduced by this term node"""
    if t.op == "poly":
        return {q[0] for m in t.args[0] for q in m[0]}
    if t.op == "comp":
        return {q[0] for seg in t.args[1] for q in seg[0]}
    if t.op == "dict":
        return {q[0] for seg in t.args[0] for q in seg[0]}
    if t.op == "fix":
        return {q[0] for q in t.args[1]}
    return ()


def _argkey(a):
    if isinstance(a, T):
        return a.key
    if isinstance(a, tuple):
        return "(" + ",".join(_argkey(x) for x in a) + ")"
    return str(a)


def _mkkey(t):
    k = t.op + "[" + ",".join(_argkey(a) for a in t.args) + "]"
    if len(k) > 400:        # shared subterms: do not expand them
        k = k[:40] + "#" + hashlib.blake2b(k.encode(),
                                           digest_size=16).hexdigest()
    return k


def mk(op, *args):
    k = (op, args)
    t = _table.get(k)
    if t is None:
        t = T.__new__(T)
        t.op = op
        t.args = args
        t._key = None
        t._free = None
        t._depth = None
        t.n = next(_uid)
        _table[k] = t
    return t


# ---------------------------------------------------------------- constants
def const(v):
    if isinstance(v, bool) or v is None or v is Ellipsis:
        return mk("const", type(v).__name__, str(v))
    if isinstance(v, float):
        if v in (float("inf"), float("-inf")):
            return mk("const", "inf", "+" if v > 0 else "-")
        if v != v:
            return mk("const", "nan", "nan")
        return mk("const", "num", Fraction(repr(v)))
    if isinstance(v, (int, Fraction)):
        return mk("const", "num", Fraction(v))
    if isinstance(v, str):
        return mk("const", "str", v)
    if isinstance(v, bytes):
        return mk("const", "bytes", repr(v))
    if isinstance(v, complex):
        return mk("const", "complex", repr(v))
    raise TypeError(v)


NONE = const(None)
PYTRUE = const(True)
PYFALSE = const(False)
ZERO = const(0)
ONE = const(1)
EMPTYSTR = const("")


def is_num(t):
    return isinstance(t, T) and t.op == "const" and t.args[0] == "num"


def is_str(t):
    return isinstance(t, T) and t.op == "const" and t.args[0] == "str"


def is_const(t):
    return isinstance(t, T) and t.op == "const"


def pyval(t):
    k, v = t.args
    if k == "num":
        return int(v) if v.denominator == 1 else float(v)
    if k == "str":
        return v
    if k == "bool":
        return v == "True"
    if k == "NoneType":
        return None
    if k == "inf":
        return float("inf") if v == "+" else float("-inf")
    return v


def sym(name):
    return mk("sym", name)


_fresh = count()


def fresh_id(hint="q"):
    return f"{hint}~{next(_fresh)}"


def bv(i, comp=0, sort="obj"):
    return mk("bv", i, comp, sort)


# ---------------------------------------------------------------- guards/BDD
TRUE = mk("true")
FALSE = mk("false")


def is_guard(t):
    return isinstance(t, T) and t.op in ("true", "false", "bdd")


def _top(*fs):
    best = None
    for f in fs:
        if f.op == "bdd":
            if best is None or f.args[0].key < best.key:
                best = f.args[0]
    return best


def _cof(f, a, v):
    if f.op == "bdd" and f.args[0] is a:
        return f.args[1] if v else f.args[2]
    return f


_ite_memo = {}


def b_ite(f, g, h):
    if f is TRUE:
        return g
    if f is FALSE:
        return h
    if g is h:
        return g
    if g is TRUE and h is FALSE:
        return f
    k = (f, g, h)
    r = _ite_memo.get(k)
    if r is not None:
        return r
    a = _top(f, g, h)
    hi = b_ite(_cof(f, a, 1), _cof(g, a, 1), _cof(h, a, 1))
    lo = b_ite(_cof(f, a, 0), _cof(g, a, 0), _cof(h, a, 0))
    r = hi if hi is lo else mk("bdd", a, hi, lo)
    _ite_memo[k] = r
    return r


def b_and(*fs):
    r = TRUE
    for f in fs:
        r = b_ite(r, f, FALSE)
        if r is FALSE:
            break
    return r


def b_or(*fs):
    r = FALSE
    for f in fs:
        r = b_ite(r, TRUE, f)
    return r


def b_not(f):
    return b_ite(f, FALSE, TRUE)


def b_implies(f, g):
    return b_and(f, b_not(g)) is FALSE


def b_atoms(f, acc=None, seen=None):
    if acc is None:
        acc, seen = set(), set()
    if f.op != "bdd" or f in seen:
        return acc
    seen.add(f)
    acc.add(f.args[0])
    b_atoms(f.args[1], acc, seen)
    b_atoms(f.args[2], acc, seen)
    return acc


def b_restrict(f, atom, val):
    if f.op != "bdd":
        return f
    a, hi, lo = f.args
    if a is atom:
        return hi if val else lo
    return b_ite(
        mk("bdd", a, TRUE, FALSE),
        b_restrict(hi, atom, val),
        b_restrict(lo, atom, val),
    )


def b_simplify(f, care):
    """drop from f the literals already implied by `care`"""
    if care is TRUE or f.op != "bdd":
        return f
    if b_implies(care, f):
        return TRUE
    if b_and(care, f) is FALSE:
        return FALSE
    for a in sorted(b_atoms(f) & b_atoms(care), key=lambda x: x.key):
        lit = mk("bdd", a, TRUE, FALSE)
        if b_implies(care, lit):
            f = b_restrict(f, a, True)
        elif b_and(care, lit) is FALSE:
            f = b_restrict(f, a, False)
    if f.op == "bdd":
        both = sorted(b_atoms(f) & b_atoms(care), key=lambda x: x.key)
        if 0 < len(both) <= 12:
            want = b_and(f, care)
            for a in both:
                x = b_exists(f, a)
                if x is not f and b_and(x, care) is want:
                    f = x
                    if f is TRUE:
                        break
    return f


def b_exists(f, atom):
    return b_or(b_restrict(f, atom, True), b_restrict(f, atom, False))


def lit(atom):
    return mk("bdd", atom, TRUE, FALSE)


# --- atoms -----------------------------------------------------------------
def _linear_int(p):
    """(const, {atom: coef}) if polynomial term p is linear over nat-sorted
    bound variables and `card` atoms, else None"""
    P = as_poly(p)
    c = Fraction(0)
    lin = {}
    for (q, g, atoms), k in P.terms.items():
        if q or g is not TRUE:
            return None
        if not atoms:
            c += k
            continue
        if len(atoms) != 1 or atoms[0][1] != 1:
            return None
        a = atoms[0][0]
        if a.op == "bv" and a.args[2].startswith("nat"):
            lin[a] = lin.get(a, 0) + k
        elif a.op == "card":
            lin[a] = lin.get(a, 0) + k
        else:
            return None
    if c.denominator != 1 or any(v.denominator != 1 for v in lin.values()):
        return None
    return int(c), {a: int(v) for a, v in lin.items() if v}


def _bounds(c, lin):
    """interval [lo, hi] (None = unbounded) of c + sum(lin) given
    0 <= bv <= card-1 and card >= 1"""
    lin = dict(lin)

    def lower(c, lin):
        lin = dict(lin)
        lo = c
        for a in list(lin):
            k = lin[a]
            if a.op == "bv":
                if k > 0:
                    pass  # >= 0
                else:
                    card, off = _card_of_sort(a.args[2])
                    if card is None:
                        return None
                    # a <= card + off - 1
                    lin[card] = lin.get(card, 0) + k
                    lo += k * (off - 1)
        for a, k in lin.items():
            if a.op == "card":
                if k < 0:
                    return None
                lo += k  # card >= 1
        return lo

    lo = lower(c, lin)
    hi = lower(-c, {a: -k for a, k in lin.items()})
    return lo, (None if hi is None else -hi)


def _card_of_sort(sort):
    if ":" in sort:
        base, _, off = sort[4:].partition("+")
        return mk("card", base), int(off or 0)
    return None, 0


def rising(t):
    """sequences that do not fall: the years in which the periods start"""
    return t.op == "attr" and t.args[1] in ("periods_years",
                                            "es.periods_years")


def scaled(p):
    """p divided by the positive content of its coefficients"""
    if not isinstance(p, T) or p.op != "poly":
        return p
    cs = [c for _, parts, _ in p.args[0] for c, _ in parts]
    n = reduce(gcd, [abs(c.numerator) for c in cs])
    d = reduce(lcm, [c.denominator for c in cs])
    return p if n == d else mul(const(Fraction(d, n)), p)


def a_lt0(p):
    """guard  p < 0"""
    p = as_term(p)
    if is_num(p):
        return TRUE if p.args[1] < 0 else FALSE
    if decided(p):
        cs = by_case(p)
        if all(is_num(v) for _, v in cs):
            return b_or(*[g for g, v in cs if v.args[1] < 0])
    if is_const(p) and p.args[0] == "inf":
        return TRUE if p.args[1] == "-" else FALSE
    li = _linear_int(p)
    if li is not None:
        c, lin = li
        lo, hi = _bounds(c, lin)
        if hi is not None and hi < 0:
            return TRUE
        if lo is not None and lo >= 0:
            return FALSE
        if lo == -1:
            return a_eq0(add(p, ONE))
        if hi == 0:
            return b_not(a_eq0(p))
        # integers: p < 0  <=>  not(-p-1 < 0): pick the smaller key
        q = sub(neg(p), ONE)
        if q.key < p.key:
            return b_not(lit(mk("lt0", q)))
    else:
        p = scaled(p)
    for f in NUM_HOOKS:
        r = f(p, "lt0")
        if r is not None:
            return r
    x = absolute(p)
    if x is not None:           # abs(x) < 0, -abs(x) < 0
        return FALSE if x[0] > 0 else b_not(a_eq0(x[1]))
    x = measured(p)
    if x is not None:           # -len(x) < 0
        ((_, c),) = as_poly(p).terms.items()
        return a_truthy(x) if c == -1 else FALSE
    x = measured(add(p, ONE))
    if x is not None:           # len(x) - 1 < 0
        ((_, c),) = as_poly(add(p, ONE)).terms.items()
        if c == 1:
            return b_not(a_truthy(x))
    return lit(mk("lt0", p))


def by_case(p):
    """[(condition, value)] of a number that is a sum of terms which apply
    under conditions"""
    p = as_term(p)
    P = as_poly(p)
    gs = []
    for (q, g, at), _ in P.terms.items():
        if not q and g is not TRUE and g not in gs and b_not(g) not in gs:
            gs.append(g)
    if not gs or len(gs) > 4:
        return [(TRUE, p)]
    out = []
    for n in range(2 ** len(gs)):
        case = b_and(*[g if n >> k & 1 else b_not(g)
                       for k, g in enumerate(gs)])
        if case is FALSE:
            continue
        R = Poly()
        for (q, g, at), c in P.terms.items():
            h = g if q else b_simplify(g, case)
            if h is FALSE:
                continue
            if h is not TRUE and not q:
                return [(TRUE, p)]
            R.iadd_term(q, h, at, c)
        out.append((case, as_term(R)))
    return out


def decided(p):
    """a sum of numbers that apply under conditions"""
    return p.op == "poly" and all(
        not q and not at for q, g, at in as_poly(p).terms) and any(
        g is not TRUE for q, g, at in as_poly(p).terms)


def a_le0(p):
    return b_not(a_lt0(neg(p)))


def a_eq0(p):
    p = as_term(p)
    if is_num(p):
        return TRUE if p.args[1] == 0 else FALSE
    if decided(p):
        cs = by_case(p)
        if all(is_num(v) for _, v in cs):
            return b_or(*[g for g, v in cs if v.args[1] == 0])
    li = _linear_int(p)
    if li is not None:
        lo, hi = _bounds(*li)
        if (lo is not None and lo > 0) or (hi is not None and hi < 0):
            return FALSE
    else:
        p = scaled(p)
    for f in NUM_HOOKS:
        r = f(p, "eq0")
        if r is not None:
            return r
    x = measured(p)
    if x is not None:
        return b_not(a_truthy(x))
    x = absolute(p)
    if x is not None:
        return a_eq0(x[1])
    n = neg(p)
    if n.key < p.key:
        p = n
    return lit(mk("eq0", p))


def absolute(p):
    """(sign, x) if p is the absolute value of x or its negative"""
    if p.op == "call" and p.args[0].op == "sym" and \
            p.args[0].args[0] == "abs" and len(p.args[1]) == 1:
        return 1, p.args[1][0]
    if p.op == "poly":
        n = neg(p)
        if n.op == "call":
            x = absolute(n)
            return None if x is None else (-1, x[1])
    return None


def measured(p):
    """x if p is the length of x or its negative"""
    P = as_poly(p)
    if len(P.terms) != 1:
        return None
    ((q, g, atoms), c), = P.terms.items()
    if q or g is not TRUE or len(atoms) != 1 or atoms[0][1] != 1 or \
            c not in (1, -1):
        return None
    a = atoms[0][0]
    return length_of(a)


def length_of(a):
    if a.op == "call" and a.args[0].op == "sym" and \
            a.args[0].args[0] == "len" and len(a.args[1]) == 1:
        return a.args[1][0]
    return None


_DISTINCT = ("const",)


def a_eq(a, b):
    """guard a == b for arbitrary values"""
    if a is b:
        return TRUE
    if is_const(a) and is_const(b):
        if a.args[0] == "bool" and b.args[0] == "num":
            return TRUE if (a is PYTRUE) == (b is ONE) and b in (
                ZERO, ONE) else FALSE
        if b.args[0] == "bool" and a.args[0] == "num":
            return a_eq(b, a)
        return FALSE
    for x, y in ((a, b), (b, a)):
        if x is NONE:
            return a_is(y, NONE)
        if x.op == "cases":
            return b_or(*[b_and(g, a_eq(v, y)) for g, v in x.args[0]])
        if is_guard(x) and y in (PYTRUE, PYFALSE):
            return x if y is PYTRUE else b_not(x)
        if y in (PYTRUE, PYFALSE) and is_bool_attr(x):
            return a_is(x, y)
    for x, y in ((a, b), (b, a)):
        for f in EQ_HOOKS:
            r = f(x, y)
            if r is not None:
                return r
        if x.op != "tuple" or not x.args:
            continue
        if y.op == "tuple":
            return FALSE if len(x.args) != len(y.args) else b_and(*[
                a_eq(p, q) for p, q in zip(x.args, y.args)])
        if y.op == "sym" and y.args[0].startswith("OBJECT:"):
            return FALSE
        if y.op in ("bv", "sym", "idx"):
            return b_and(*[a_eq(p, idx(y, (const(k),)))
                           for k, p in enumerate(x.args)])
    if is_str(a) or is_str(b) or a in (PYTRUE, PYFALSE) or b in (
            PYTRUE, PYFALSE) or a.op in NONNUM or b.op in NONNUM:
        x, y = sorted((a, b), key=lambda t: t.key)
        return lit(mk("eq", x, y))
    return a_eq0(sub(a, b))


NONNUM = ("tuple", "comp", "fstr", "dict", "cls")


# elements of collections may be None
NONE_ELEMENTS = [False]


PARTS = ("split", "rsplit", "partition", "rpartition")
TEXTS = ("lower", "upper", "strip", "lstrip", "rstrip", "replace", "join",
         "removeprefix", "removesuffix", "title", "format")


def is_text(t):
    """strings made of other objects, and parts of them"""
    if t.op == "fstr" or is_str(t):
        return True
    if t.op == "call":
        f = t.args[0]
        return f is sym("str") or (f.op == "attr" and f.args[1] in TEXTS
                                   and is_text(f.args[0]))
    if t.op == "idx" and t.args[0].op == "call":
        f = t.args[0].args[0]
        return f.op == "attr" and f.args[1] in PARTS and is_text(f.args[0])
    return t.op == "idx" and is_text(t.args[0])


KINDS_OF = {
    "str": ("str", "object", "Hashable", "Iterable", "Sequence",
            "Collection"),
    "tuple": ("tuple", "object", "Hashable", "Iterable", "Sequence",
              "Collection"),
    "num": ("Real", "Number", "object", "Hashable"),
    "bool": ("bool", "object", "Hashable")}
OTHER_KINDS = {
    "str": None, "tuple": None,
    "num": ("str", "Iterable", "dict", "list", "tuple", "Entity", "Node"),
    "bool": ("str", "Iterable", "dict", "list", "tuple", "Entity", "Node")}


def a_isinstance(v, ot):
    if v.op == "cases":
        return b_or(*[b_and(g, a_isinstance(x, ot)) for g, x in v.args[0]])
    if v is NONE:
        return FALSE
    nm = ot.args[0].split(".")[-1].split(":")[-1] if ot.args and isinstance(
        ot.args[0], str) else ""
    kind = "tuple" if v.op == "tuple" else v.args[0] if is_const(v) else \
        "str" if v.op in ("call", "idx", "fstr") and is_text(v) else None
    if nm and kind in KINDS_OF:
        if nm in KINDS_OF[kind]:
            return TRUE
        if OTHER_KINDS[kind] is None or nm in OTHER_KINDS[kind]:
            return FALSE
    return lit(mk("isinstance", v, ot))


def a_is(a, b):
    if a is b:
        return TRUE
    for x, y in ((a, b), (b, a)):
        if x.op == "cases":
            return b_or(*[b_and(g, a_is(v, y)) for g, v in x.args[0]])
        if is_guard(x):
            if y in (PYTRUE, PYFALSE):
                return x if y is PYTRUE else b_not(x)
            if y is NONE:
                return FALSE
    if is_const(a) and is_const(b):
        return FALSE
    for x, y in ((a, b), (b, a)):
        if y is NONE and (x.op in ("poly", "tuple", "comp", "fstr", "dict",
                                   "closure", "obj", "cls", "const")):
            return FALSE
        if y is NONE and x.op == "attr" and x.args[0].op == "attr" and any(
                f(x) for f in NONE_NEVER):
            return FALSE
        if y is NONE and x.op == "bv" and not NONE_ELEMENTS[0]:
            return FALSE
        if y is NONE and x.op == "attr" and x.args[1] in METHODS:
            return FALSE
        if y is NONE and x.op in ("call", "idx") and is_text(x):
            return FALSE
        if y is NONE and x.op == "attr" and x.args[0].op == "sym" and \
                x.args[0].args[0].endswith("Block"):
            return FALSE            # components of blocks
        if y is NONE and x.op == "idx" and x.args[0].op == "attr" and \
                x.args[0].args[0].op == "sym" and \
                x.args[0].args[0].args[0].endswith("Block"):
            return FALSE            # and their elements
        if y is NONE and x.op == "sym" and (
                x.args[0].startswith("GIVEN:") or
                x.args[0].endswith("Block")):
            return FALSE
        if y is NONE and x.op == "call" and x.args[0] in NEVER_NONE:
            return FALSE
        if y is NONE and x.op == "call" and x.args[0].op == "attr" and \
                x.args[0].args[1] in ("min", "max", "sum"):
            return FALSE
        if y is NONE and x.op == "call" and x.args[0] is SEQ and x.args[1]:
            return a_is(x.args[1][0], NONE)
    for x, y in ((a, b), (b, a)):
        if y in (PYTRUE, PYFALSE) and x.op == "call" and \
                x.args[0].op == "sym" and x.args[0].args[0] in BOOL_FUNCS:
            return lit(mk("truthy", x)) if y is PYTRUE else b_not(
                lit(mk("truthy", x)))
        if y in (PYTRUE, PYFALSE) and is_bool_attr(x):
            return lit(mk("truthy", x)) if y is PYTRUE else b_not(
                lit(mk("truthy", x)))
        if y is NONE and is_bool_attr(x):
            return FALSE
        if x.op == "bv" and (y.op in ("bv", "attr") or y.op == "nth" and
                             x.args[2] == "obj"):
            return a_eq(a, b)       # nodes, edges: no two equal ones
    x, y = sorted((a, b), key=lambda t: t.key)
    return lit(mk("is", x, y))


NEVER_NONE = set()
METHODS = {"_objective_expression", "constraint_group", "_create"}
BOOL_FUNCS = {"inspect.isbuiltin", "math.isfinite", "math.isinf",
              "math.isnan"}
SEQ = mk("sym", "sequence")
BOOL_ATTR = []      # predicates: term is always a bool
NONE_NEVER = []     # predicates: attribute of an attribute, never None
OBJ_ATTR = []       # predicates: term is None or a truthy object


def is_bool_attr(t):
    return t.op == "attr" and any(f(t) for f in BOOL_ATTR)


TRUTH_HOOKS = []
EQ_HOOKS = []
NUM_HOOKS = []


def a_truthy(t):
    if is_guard(t):
        return t
    if t.op == "attr" and any(f(t) for f in OBJ_ATTR):
        return b_not(a_is(t, NONE))
    if t.op == "const":
        k, v = t.args
        if k == "num":
            return TRUE if v != 0 else FALSE
        if k == "str":
            return TRUE if v else FALSE
        if k == "bool":
            return TRUE if v == "True" else FALSE
        if k == "NoneType":
            return FALSE
        return TRUE
    if t.op in ("cases", "relcases"):
        return b_or(*[b_and(g, a_truthy(v)) for g, v in t.args[0]])
    if t.op == "tuple":
        return TRUE if t.args else FALSE
    if t.op in ("closure", "obj", "cls"):
        return TRUE
    if t.op == "aslist":
        return a_truthy(t.args[0])
    x = length_of(t)
    if x is not None:
        return a_truthy(x)
    if t.op == "poly" or t.op == "call" and t.args[0] is sym("abs"):
        return b_not(a_eq0(t))
    if t.op == "bv" and t.args[2].startswith("nat"):
        return b_not(a_eq0(t))
    for h in TRUTH_HOOKS:
        r = h(t)
        if r is not None:
            return r
    return lit(mk("truthy", t))


# ---------------------------------------------------------------- cases
def cases(pairs):
    """guarded choice; pairs: [(guard, term)], guards cover everything"""
    acc = {}
    for g, v in pairs:
        if g is FALSE:
            continue
        if v.op in ("cases", "relcases"):
            for g2, v2 in v.args[0]:
                gg = b_and(g, g2)
                if gg is not FALSE:
                    acc[v2] = b_or(acc.get(v2, FALSE), gg)
        else:
            acc[v] = b_or(acc.get(v, FALSE), g)
    if not acc:
        return UNDEF
    if len(acc) > 1 and UNDEF in acc:
        del acc[UNDEF]
    if len(acc) == 1:
        return next(iter(acc))
    if all(is_guard(v) or v in (PYTRUE, PYFALSE) for v in acc):
        if any(v.op == "bdd" and v.args[0].op in ("eq0", "lt0")
               for v in acc):
            # a choice of relations: the condition of the choice must stay
            # apart from the relations themselves
            return mk("relcases", tuple(sorted(
                ((g, v) for v, g in acc.items()),
                key=lambda x: x[1].key)))
        return b_or(*[b_and(g, a_truthy(v)) for v, g in acc.items()])
    if len(acc) == 2:
        r = _extremum(*acc.items())
        if r is not None:
            return r
    if any(v.op == "poly" for v in acc) and all(_numlike(v) for v in acc):
        # numeric choice: keep as polynomial with guarded monomials
        P = Poly()
        for v, g in acc.items():
            P.iadd(as_poly(v), guard=g)
        return as_term(P)
    items = tuple(sorted(((g, v) for v, g in acc.items()),
                         key=lambda x: x[1].key))
    return mk("cases", items)


def _extremum(x, y):
    """min/max if the guards of the two values compare them"""
    (a, g), (b, h) = x, y
    if g.op != "bdd" or h is not b_not(g) or g.args[0].op != "lt0" or not (
            g.args[1] is TRUE and g.args[2] is FALSE or
            g.args[1] is FALSE and g.args[2] is TRUE):
        return None
    if not (_numlike(a) and _numlike(b)):
        return None
    if g.args[1] is FALSE:
        a, b = b, a
    p = g.args[0].args[0]          # a if p < 0 else b
    d = sub(a, b)
    if is_num(d):
        return None
    if p is d:
        name = "min"
    elif p is neg(d):
        name = "max"
    elif _linear_int(p) is not None and p is sub(d, ONE):
        name = "min"               # a - b <= 0
    elif _linear_int(p) is not None and p is sub(neg(d), ONE):
        name = "max"
    else:
        return None
    return call(sym(name), sorted((a, b), key=lambda t: t.key))


def _numlike(v):
    return v.op == "poly" or is_num(v) or v.op in (
        "attr", "idx", "bv", "card", "pow", "recip")


UNDEF = mk("undef")


def ite(g, a, b):
    if g is TRUE:
        return a
    if g is FALSE:
        return b
    return cases([(g, a), (b_not(g), b)])


# ---------------------------------------------------------------- polynomials
class Poly:
    """terms: {(quants, guard, atoms): Fraction}
    quants: tuple of (id, domain T, arity, sort); atoms: ((T, power), ...)"""
    __slots__ = ("terms",)

    def __init__(self, terms=None):
        self.terms = terms if terms is not None else {}

    def iadd_term(self, q, g, atoms, c):
        if c == 0 or g is FALSE:
            return
        k = (q, g, atoms)
        v = self.terms.get(k, 0) + c
        if v == 0:
            self.terms.pop(k, None)
        else:
            self.terms[k] = v

    def iadd(self, other, scale=1, guard=TRUE):
        for (q, g, a), c in other.terms.items():
            self.iadd_term(q, b_and(g, guard), a, c * scale)
        return self


def p_const(c):
    p = Poly()
    p.iadd_term((), TRUE, (), Fraction(c))
    return p


def as_poly(t):
    if isinstance(t, Poly):
        return t
    if t.op == "poly":
        p = Poly()
        for q, parts, atoms in t.args[0]:
            for c, g in parts:
                p.iadd_term(q, g, atoms, c)
        return p
    if is_num(t):
        return p_const(t.args[1])
    if t is PYTRUE:
        return p_const(1)
    if t is PYFALSE:
        return p_const(0)
    if is_guard(t):
        p = Poly()
        p.iadd_term((), t, (), Fraction(1))
        return p
    if t.op == "cases":
        p = Poly()
        for g, v in t.args[0]:
            p.iadd(as_poly(v), guard=g)
        return p
    if t.op == "recip":
        p = Poly()
        p.iadd_term((), TRUE, ((t.args[0], -1),), Fraction(1))
        return p
    p = Poly()
    p.iadd_term((), TRUE, ((t, 1),), Fraction(1))
    return p


def _mul_atoms(a, b):
    d = dict(a)
    for x, k in b:
        d[x] = d.get(x, 0) + k
    return tuple(sorted(((x, k) for x, k in d.items() if k),
                        key=lambda z: (z[0].key, z[1])))


def p_mul(a, b):
    r = Poly()
    for (q1, g1, a1), c1 in a.terms.items():
        ids1 = {q[0] for q in q1}
        for (q2, g2, a2), c2 in b.terms.items():
            if ids1 & {q[0] for q in q2}:
                q2, g2, a2 = _refresh(q2, g2, a2)
            q = tuple(sorted(q1 + q2, key=lambda x: x[0]))
            r.iadd_term(q, b_and(g1, g2), _mul_atoms(a1, a2), c1 * c2)
    return r


def _refresh(q, g, atoms):
    m = {}
    for i, dom, ar, sort in q:
        ni = fresh_id("r")
        m[i] = ni
    sub_ = lambda t: rename_ids(t, m)
    nq = tuple(sorted(((m[i], sub_(dom), ar, sort) for i, dom, ar, sort in q),
                      key=lambda x: x[0]))
    return nq, sub_(g), _mul_atoms((), [(sub_(a), k) for a, k in atoms])


def as_term(p):
    """canonical term of a polynomial"""
    if isinstance(p, T):
        return p
    return canon_poly(p)


_NUMBV = ("nat",)


def canon_poly(P):
    groups = {}
    for (q, g, atoms), c in P.terms.items():
        for (q2, g2, atoms2, c2) in _canon_mono(q, g, atoms, c):
            d = groups.setdefault((q2, atoms2), {Fraction(0): TRUE})
            nd = {}
            for v, h in d.items():
                hi = b_and(h, g2)
                lo = b_and(h, b_not(g2))
                if hi is not FALSE:
                    nd[v + c2] = b_or(nd.get(v + c2, FALSE), hi)
                if lo is not FALSE:
                    nd[v] = b_or(nd.get(v, FALSE), lo)
            groups[(q2, atoms2)] = nd
    out = []
    for (q, atoms), d in groups.items():
        parts = tuple(sorted(((v, g) for v, g in d.items() if v != 0),
                             key=lambda x: (x[0], x[1].key)))
        if parts:
            out.append((q, parts, atoms))
    if not out:
        return ZERO
    if len(out) == 1 and not out[0][0]:
        q, parts, atoms = out[0]
        if len(parts) == 1 and parts[0][1] is TRUE:
            c = parts[0][0]
            if not atoms:
                return const(c)
            if c == 1 and len(atoms) == 1:
                a, k = atoms[0]
                if k == 1:
                    return a
                if k == -1:
                    return mk("recip", a)
        if len(parts) == 1 and not atoms and parts[0][0] == 1:
            return parts[0][1]  # a pure indicator
    out.sort(key=lambda m: (_argkey(m[0]), _argkey(m[2]), _argkey(m[1])))
    return mk("poly", tuple(out))


def _column(a):
    """an argument of zip: (domain, variable, element)"""
    if a.op in ("sym", "attr"):
        return a, None, None
    if a.op == "comp" and len(a.args[1]) == 1:
        (q, g, e), = a.args[1]
        if g is TRUE and len(q) == 1 and q[0][1].op in (
                "sym", "attr") and q[0][2] == 1 and q[0][3] == "obj":
            return q[0][1], bv(q[0][0], 0, "obj"), e
    return None


def by_position(q, parts):
    """zipped arguments: what the others hold at the position of an element
    of the first"""
    for n, (i, dom, ar, so) in enumerate(q):
        if ar != 1 or dom.op != "call" or dom.args[0] is not sym("zip"):
            continue
        cols = [_column(a) for a in dom.args[1]]
        if not cols or None in cols:
            continue
        var, first = bv(i, 0, so), bv(i, 0, "obj")
        m = {}
        for k, (d, x, e) in enumerate(cols):
            at = idx(d, (mk("pos", cols[0][0], first),)) if k and \
                d is not cols[0][0] else first
            m[idx(var, (const(k),))] = at if e is None else subst(e, {x: at})
        j = fresh_id("i")
        m = {k: subst(v, {first: bv(j, 0, "obj")}) for k, v in m.items()}
        if all(i not in subst(x, m).free for x in parts):
            return q[:n] + ((j, cols[0][0], 1, "obj"),) + q[n + 1:], m
    return q, None


def repeated(d):
    """may the same element come more than once"""
    f = d.args[0] if d.op == "call" else d
    return f.op == "sym" and str(f.args[0]).startswith(
        ("mod:numpy.", "numpy.")) or \
        f.op == "attr" and f.args[0].op == "sym" and \
        f.args[0].args[0] == "mod:numpy"


def equal_to_one(i, dom, sort, g):
    """conditions of elements that equal some value"""
    x = bv(i, 0, sort)
    if any(mentions(a, mk("pos", dom, x)) for a in b_atoms(g)):
        return g
    for a in b_atoms(g):
        if a.op == "eq0" and i in a.free and b_restrict(
                g, a, False) is FALSE:
            e = _solve_for(a.args[0], i)
            if e is None or i in e.free:
                continue
            g = subst(b_restrict(g, a, True), {x: e})
            return b_and(lit(a), b_restrict(g, mk("in", e, dom), True))
    return g


def held_by(e, dom, sort):
    """condition that the value is in the domain, as far as it needs one"""
    if sort.startswith("nat:"):
        c, o = _card_of_sort(sort)
        return b_and(b_not(a_lt0(e)), a_lt0(sub(e, add(c, const(o)))))
    return lit(mk("in", e, dom))


def _dom_norm(q, g, atoms, any_one=False):
    """drop/normalise quantifiers; returns list of (q,g,atoms)"""
    q2, m = by_position(q, [g] + [a for a, _ in atoms])
    if m:
        return _dom_norm(q2, subst(g, m), tuple(
            (subst(a, m), k) for a, k in atoms), any_one)
    q2, m = by_period(q, [g] + [a for a, _ in atoms])
    if m:
        return _dom_norm(tuple(sorted(q2, key=lambda x: x[0])), subst(g, m),
                         tuple((subst(a, m), k) for a, k in atoms),
                         any_one)
    changed = True
    while changed:
        changed = False
        # one point rule
        for (i, dom, ar, sort) in q:
            if ar != 1:
                continue
            if repeated(dom) and (not any_one or any(
                    mentions(a, mk("pos", dom, bv(i, 0, sort)))
                    for a in b_atoms(g))):
                # one, but not the only one
                g = equal_to_one(i, dom, sort, g)
                continue
            for a in b_atoms(g):
                if a.op != "eq0" or i not in a.free:
                    continue
                if b_restrict(g, a, False) is not FALSE:
                    continue
                e = _solve_for(a.args[0], i)
                if e is None:
                    continue
                var = bv(i, 0, sort)
                m = {var: e}
                q2 = tuple((j, subst(d, m), ar2, s2)
                           for j, d, ar2, s2 in q if j != i)
                g2 = b_and(subst(b_restrict(g, a, True), m),
                           held_by(e, dom, sort))
                atoms2 = _subst_atoms(atoms, m)
                if i in g2.free or g2 is FALSE:
                    continue
                res = []
                for c3, q3, g3, at3 in atoms2:
                    qq = tuple(sorted(q2 + q3, key=lambda x: x[0]))
                    res.append((c3, qq, b_and(g2, g3), at3))
                if len(res) == 1 and res[0][0] == 1:
                    _, q, g, atoms = res[0]
                    changed = True
                    break
            if changed:
                break
            r = solve_parts(g, i, sort)
            if r is not None:
                m = {bv(i, 0, sort): r[0]}
                q2 = tuple((j, subst(d, m), ar2, s2)
                           for j, d, ar2, s2 in q if j != i)
                g2 = b_and(subst(r[1], m), lit(mk("in", r[0], dom)))
                res = [(c, tuple(sorted(q2 + q3, key=lambda x: x[0])),
                        b_and(g2, g3), at)
                       for c, q3, g3, at in _subst_atoms(atoms, m)]
                if len(res) == 1 and res[0][0] == 1 and g2 is not FALSE:
                    _, q, g, atoms = res[0]
                    changed = True
                    break
        if changed:
            continue
        # all points but the first or the last: as many as steps
        for (i, dom, ar, sort) in q:
            if ar != 1 or sort not in POINTS or dom.op != "attr" or \
                    dom.args[1] not in POINTS[sort][0]:
                continue
            x = bv(i, 0, sort)
            card, _ = _card_of_sort(sort)
            y = bv(i, 0, POINTS[sort][2])
            if b_and(g, a_eq0(x)) is FALSE:
                m = {x: add(y, ONE)}
            elif b_and(g, a_eq0(sub(x, card))) is FALSE:
                m = {x: y}
            else:
                continue
            q2 = tuple((j, subst(d, m), ar2, s2) if j != i else (
                i, mk("attr", dom.args[0], POINTS[sort][1]), 1,
                POINTS[sort][2]) for j, d, ar2, s2 in q)
            res = _subst_atoms(atoms, m)
            if len(res) == 1 and res[0][0] == 1:
                _, q3, g3, at = res[0]
                g = b_and(subst(g, m), g3)
                q, atoms = tuple(sorted(q2 + q3, key=lambda x: x[0])), at
                changed = True
                break
        if changed:
            continue
        # (p in PERIODS, t in TIMESTEPS_IN_PERIOD[p]) with p unused
        for (i, dom, ar, sort) in q:
            if dom.op == "idx" and is_tip(dom.args[0]) and len(
                    dom.args[1]) == 1:
                p = dom.args[1][0]
                if p.op != "bv":
                    continue
                pi = p.args[0]
                if not any(qq[0] == pi for qq in q):
                    continue
                if pi in g.free or any(pi in a.free for a, _ in atoms):
                    continue
                if any(pi in d2.free for j, d2, _, _ in q if j != i):
                    continue
                q = tuple(sorted(
                    [x for x in q if x[0] not in (i, pi)]
                    + [(i, timesteps_dom(dom.args[0]), 1, sort)],
                    key=lambda x: x[0]))
                changed = True
                break
    return q, g, atoms


POINTS = {"nat:TIMESTEPS+1": (("TIMEPOINTS",), "TIMESTEPS", "nat:TIMESTEPS"),
          "nat:CLUSTERS+1": (("CLUSTERS_OFFSET",), "CLUSTERS",
                             "nat:CLUSTERS")}
PERIOD_OF = "period of"


def by_period(q, terms):
    """quantifiers with the period of a timestep quantified as well, if it
    occurs in one of the terms"""
    for n, (i, dom, ar, sort) in enumerate(q):
        if dom.op != "attr" or dom.args[1] != "TIMESTEPS":
            continue
        c = idx(attr(dom.args[0], PERIOD_OF), (bv(i, 0, sort),))
        if not any(i in t.free and mentions(t, c) for t in terms):
            continue
        j = fresh_id("p")
        p = bv(j, 0, "nat:PERIODS")
        tip = idx(attr(dom.args[0], "TIMESTEPS_IN_PERIOD"), (p,))
        return tuple(q[:n]) + (
            (j, attr(dom.args[0], "PERIODS"), 1, "nat:PERIODS"),
            (i, tip, 1, sort)) + tuple(q[n + 1:]), {c: p}
    return q, None


def is_tip(t):
    return t.op == "attr" and t.args[1] == "TIMESTEPS_IN_PERIOD"


def timesteps_dom(tip):
    return mk("attr", tip.args[0], "TIMESTEPS")


def t_restrict(t, atom, val, memo=None):
    """t with every occurrence of a guard atom fixed to val"""
    if memo is None:
        memo = {}
    r = memo.get(t)
    if r is not None:
        return r
    if t.op == "bdd":
        a, hi, lo = t.args
        if a is atom:
            r = t_restrict(hi if val else lo, atom, val, memo)
        else:
            r = b_ite(rebuild_atom(
                a, lambda x: t_restrict(x, atom, val, memo)),
                t_restrict(hi, atom, val, memo),
                t_restrict(lo, atom, val, memo))
    elif t.op in ("const", "sym", "bv", "true", "false", "undef", "card") \
            or sealed(t):
        r = t
    else:
        r = rebuild(t, lambda x: t_restrict(x, atom, val, memo))
    memo[t] = r
    return r


_carry = {}


def has_carry(t):
    """t depends on the state of an enclosing summarised loop"""
    r = _carry.get(t)
    if r is None:
        if t.op == "sym":
            r = t.args[0].startswith("carry")
        elif t.op == "fix":
            r = False
        else:
            r = any(has_carry(x) for x in _walk_args(t.args))
        _carry[t] = r
    return r


def sealed(t):
    """terms whose inner conditions are not those of the place of use"""
    return t.op == "prefix" or (
        t.op == "call" and t.args[0].op == "sym"
        and t.args[0].args[0].startswith("numpy."))


def t_atoms(t, acc=None, seen=None):
    """all guard atoms occurring anywhere inside t"""
    if acc is None:
        acc, seen = set(), set()
    if t in seen:
        return acc
    seen.add(t)
    if t.op == "bdd" and not has_carry(t.args[0]):
        acc.add(t.args[0])
    if sealed(t):
        return acc
    for x in _walk_args(t.args):
        t_atoms(x, acc, seen)
    return acc


def _solve_for(p, i):
    """p == 0 solved for bound variable id i (coef +-1, linear) or None"""
    P = as_poly(p)
    coef = None
    rest = Poly()
    for (q, g, atoms), c in P.terms.items():
        fr = set()
        for a, _ in atoms:
            fr |= a.free
        for qq in q:
            fr |= qq[1].free
        fr |= g.free
        if i in fr:
            if (q or g is not TRUE or len(atoms) != 1 or atoms[0][1] != 1
                    or atoms[0][0].op != "bv" or coef is not None
                    or c not in (1, -1)):
                return None
            coef = c
        else:
            rest.iadd_term(q, g, atoms, c)
    if coef is None:
        return None
    return as_term(Poly().iadd(rest, scale=-coef))


def solve_parts(g, i, sort):
    """(value, condition left) if the condition g equates all parts of the
    pair i that it mentions"""
    x = bv(i, 0, sort)
    got = {}
    for a in sorted(b_atoms(g), key=lambda y: y.key):
        if a.op != "eq0" or i not in a.free or \
                b_restrict(g, a, False) is not FALSE:
            continue
        for k in (0, 1):
            c = idx(x, (const(k),))
            y = bv(i, k + 1, "part")
            if k not in got and mentions(a, c):
                v = _solve_for(subst(a.args[0], {c: y}), i)
                if v is not None and i not in v.free:
                    got[k] = v, a
    if len(got) < 2:
        return None
    for _, a in got.values():
        g = b_restrict(g, a, True)
    return tup([got[0][0], got[1][0]]), g


def _subst_atoms(atoms, m):
    """substituting in a monomial may yield a polynomial"""
    r = p_const(1)
    for a, k in atoms:
        s = subst(a, m)
        f = as_poly(s) if k > 0 else as_poly(inverse(s))
        for _ in range(abs(k)):
            r = p_mul(r, f)
    return [(c, q, g, at) for (q, g, at), c in r.terms.items()]


def _canon_mono(q, g, atoms, c):
    if not q:
        return [(q, g, atoms, c)]
    q, g, atoms = _dom_norm(q, g, atoms)
    if not q:
        return [(q, g, atoms, c)]
    q, m = canon_binders(q, [a for a, _ in atoms], [g])
    g2 = rename_ids(g, m)
    at2 = _mul_atoms((), [(rename_ids(a, m), k) for a, k in atoms])
    return [(q, g2, at2, c)]


class Capture(Exception):
    """a variable bound further outside has the name that is needed"""


def canon_binders(quants, primary, secondary):
    """choose canonical ids for `quants`.  Returns (new quants, id map)."""
    d = 0
    for x in list(primary) + list(secondary):
        d = max(d, x.depth)
    for _, dom, _, _ in quants:
        d = max(d, dom.depth)
    d += 1
    ids = {q[0] for q in quants}

    def skel(dom):
        return rename_ids(dom, {i: "?" for i in dom.free if i in ids}).key

    by = {}
    for qq in quants:
        by.setdefault((skel(qq[1]), qq[2]), []).append(qq)
    keys = sorted(by)
    best = None
    for order in _orders([by[k] for k in keys]):
        # dependency: domain may only mention earlier or any id - no matter
        m = {qq[0]: f"#{d}.{n}" for n, qq in enumerate(order)}
        s = "|".join(rename_ids(qq[1], m).key for qq in order) + "||"
        s += "&".join(sorted(rename_ids(x, m).key for x in primary)) + "||"
        s2 = "&".join(rename_ids(x, m).key for x in secondary)
        if best is None or (s, s2) < best[0]:
            best = ((s, s2), m, order)
    _, m, order = best
    new = set(m.values()) - ids
    if new:
        free = set()
        for x in primary:
            free |= x.free
        for x in secondary:
            free |= x.free
        for x in quants:
            free |= x[1].free
        if (free - ids) & new:
            raise Capture((free - ids) & new)
    nq = tuple((m[i], rename_ids(dom, m), ar, sort)
               for i, dom, ar, sort in order)
    return nq, m


def _orders(groups):
    if not groups:
        yield []
        return
    head, *tail = groups
    it = permutations(head) if len(head) <= 4 else [head]
    for p in it:
        for rest in _orders(tail):
            yield list(p) + rest


# ---------------------------------------------------------------- rebuild
_ren_memo = {}


def rename_ids(t, m):
    """rename bound ids (free occurrences)"""
    if not m or not (t.free & m.keys()):
        return t
    k = (t, tuple(sorted((i, j) for i, j in m.items() if i in t.free)))
    r = _ren_memo.get(k)
    if r is None:
        r = _map(t, lambda x: mk("bv", m.get(x.args[0], x.args[0]),
                                 x.args[1], x.args[2]), m.keys())
        _ren_memo[k] = r
    return r


def subst(t, m):
    """m: {T: T}; maps bv terms / syms"""
    if not m:
        return t
    ids = {k.args[0] for k in m if k.op == "bv"}
    nonbv = [k for k in m if k.op != "bv"]
    if not nonbv and not (t.free & ids):
        return t
    return _map(t, lambda x: m.get(x, x), ids, m if nonbv else None)


def _map(t, f, ids, full=None, memo=None):
    if memo is None:
        memo = {}
    r = memo.get(t)
    if r is not None:
        return r
    if full is not None and t in full:
        r = full[t]
    elif t.op == "bv":
        r = f(t)
    elif full is None and not (t.free & ids):
        r = t
    else:
        r = rebuild(t, lambda x: _map(x, f, ids, full, memo))
    memo[t] = r
    return r


def _mapargs(args, g):
    return tuple(g(a) if isinstance(a, T)
                 else _mapargs(a, g) if isinstance(a, tuple) else a
                 for a in args)


def rebuild(t, g):
    try:
        return rebuild_node(t, g)
    except Capture as e:
        own = binder_ids(t)
        if not own or not set(e.args[0]) & set(own):
            raise
        return rebuild_node(fresh_binders(t), g)


def fresh_binders(t):
    """t with own names for the variables it binds"""
    def q_(q, m):
        return tuple((m[i], rename_ids(d, m), ar, so) for i, d, ar, so in q)

    def seg(s):
        m = {i: fresh_id("i") for i, _, _, _ in s[0]}
        return (q_(s[0], m),) + tuple(rename_ids(x, m) for x in s[1:])
    if t.op == "poly":
        out = []
        for q, parts, atoms in t.args[0]:
            m = {i: fresh_id("i") for i, _, _, _ in q}
            out.append((q_(q, m), tuple((c, rename_ids(g, m))
                                        for c, g in parts),
                        tuple((rename_ids(a, m), k) for a, k in atoms)))
        return mk("poly", tuple(out))
    if t.op == "comp":
        return mk("comp", t.args[0], tuple(seg(s) for s in t.args[1]))
    if t.op == "dict":
        return mk("dict", tuple(seg(s) for s in t.args[0]))
    name, q, gd, items, brk = t.args
    m = {i: fresh_id("i") for i, _, _, _ in q}
    return mk("fix", name, q_(q, m), rename_ids(gd, m),
              tuple(tuple(rename_ids(x, m) for x in it) for it in items),
              rename_ids(brk, m))


def rebuild_node(t, g):
    op = t.op
    if op in ("const", "sym", "true", "false", "undef", "card"):
        return t
    if op == "bdd":
        a, hi, lo = t.args
        return b_ite(rebuild_atom(a, g), g(hi), g(lo))
    if op == "poly":
        P = Poly()
        for q, parts, atoms in t.args[0]:
            nq = tuple((i, g(dom), ar, sort) for i, dom, ar, sort in q)
            base = p_const(1)
            for a, k in atoms:
                s = g(a)
                fct = as_poly(s) if k > 0 else as_poly(inverse(s))
                for _ in range(abs(k)):
                    base = p_mul(base, fct)
            for c, gd in parts:
                gd2 = g(gd)
                for (q3, g3, a3), c3 in base.terms.items():
                    P.iadd_term(tuple(sorted(nq + q3, key=lambda x: x[0])),
                                b_and(gd2, g3), a3, c * c3)
        return as_term(P)
    if op in ("cases", "relcases"):
        return cases([(g(gd), g(v)) for gd, v in t.args[0]])
    if op == "attr":
        return attr(g(t.args[0]), t.args[1])
    if op == "idx":
        return idx(g(t.args[0]), tuple(g(k) for k in t.args[1]))
    if op == "recip":
        return inverse(g(t.args[0]))
    if op == "pow":
        return power(g(t.args[0]), g(t.args[1]))
    if op in ("lt0", "eq0", "eq", "is", "truthy", "in", "hasattr",
              "isinstance", "exc", "any"):
        return rebuild_atom_term(t, g)
    if op == "fix":
        return renumber_fix(mk(op, *_mapargs(t.args, g)))
    if op == "comp":
        kind, segs = _mapargs(t.args, g)
        segs = tuple(_renumber_seg(s) for s in segs)
        if kind == "set":
            segs = tuple(sorted(set(segs), key=_argkey))
        return mk(op, kind, segs)
    if op == "dict":
        segs = tuple(_renumber_seg(s) for s in _mapargs(t.args, g)[0])
        return mk(op, tuple(sorted(segs, key=_argkey)))
    r = mk(op, *_mapargs(t.args, g))
    if op == "call" and r.args[0].op == "sym" and r.args[0].args[0] in (
            "min", "max") and len(r.args[1]) > 1:
        return minmax(r)
    return r


def minmax(t):
    """min or max of the values in the order of their keys"""
    xs = sorted(set(t.args[1]), key=lambda x: x.key)
    if len(xs) == 1:
        return xs[0]
    if all(is_num(x) for x in xs):
        f = min if t.args[0].args[0] == "min" else max
        return const(f(x.args[1] for x in xs))
    return t if tuple(xs) == t.args[1] else mk(
        "call", t.args[0], tuple(xs), t.args[2])


def _renumber_seg(s):
    q, gd, e = s
    if not q:
        return s
    q, m = canon_binders(q, [e], [gd])
    return (q, rename_ids(gd, m), rename_ids(e, m))


def renumber_fix(t):
    name, q, gd, items, brk = t.args
    prim = [x for it in items for x in it] + [brk]
    q, m = canon_binders(tuple(q), prim, [gd])
    return mk("fix", name, q, rename_ids(gd, m),
              tuple(tuple(rename_ids(x, m) for x in it) for it in items),
              rename_ids(brk, m))


def rebuild_atom_term(t, g):
    r = rebuild_atom(t, g)
    if r.op == "bdd" and r.args[1] is TRUE and r.args[2] is FALSE:
        return r.args[0]
    return r


def rebuild_atom(a, g):
    op = a.op
    if op == "lt0":
        return a_lt0(g(a.args[0]))
    if op == "eq0":
        return a_eq0(g(a.args[0]))
    if op == "eq":
        return a_eq(g(a.args[0]), g(a.args[1]))
    if op == "is":
        return a_is(g(a.args[0]), g(a.args[1]))
    if op == "truthy":
        return a_truthy(g(a.args[0]))
    if op == "isinstance":
        return a_isinstance(g(a.args[0]), g(a.args[1]))
    r = mk(op, *_mapargs(a.args, g))
    if op == "any" and r.args[0].op == "comp" and len(r.args[0].args[1]) == 1:
        q, g2, e = r.args[0].args[1][0]
        if g2 is FALSE or e is FALSE:
            return FALSE
        if g2 is TRUE and is_guard(e) and any(
                x[1].op in ("tuple", "cases") for x in q):
            return exists(q, e)
    return lit(r)


# ---------------------------------------------------------------- arithmetic
def add(a, b):
    return as_term(Poly().iadd(as_poly(a)).iadd(as_poly(b)))


def sub(a, b):
    return as_term(Poly().iadd(as_poly(a)).iadd(as_poly(b), scale=-1))


def neg(a):
    if is_const(a) and a.args[0] == "inf":
        return const(float("-inf") if a.args[1] == "+" else float("inf"))
    return as_term(Poly().iadd(as_poly(a), scale=-1))


def mul(a, b):
    return as_term(p_mul(as_poly(a), as_poly(b)))


def inverse(b):
    if b.op == "cases":
        return cases([(g, inverse(v)) for g, v in b.args[0]])
    if b.op == "recip":
        return b.args[0]
    P = as_poly(b)
    if len(P.terms) == 1:
        ((q, g, atoms), c), = P.terms.items()
        if not q and g is TRUE and c != 0:
            r = Poly()
            r.iadd_term((), TRUE,
                        _mul_atoms((), [(x, -k) for x, k in atoms]), 1 / c)
            return as_term(r)
    # factors common to all summands, and denominators of summands
    if len(P.terms) > 1 and all(not q for q, _, _ in P.terms):
        low = {}
        for n, (_, _, atoms) in enumerate(P.terms):
            d = dict(atoms)
            for x in set(d) | set(low):
                low[x] = min(low.get(x, 0 if n else d.get(x, 0)),
                             d.get(x, 0))
        low = [(x, k) for x, k in low.items() if k]
        if low:
            r = Poly()
            for (q, g, atoms), c in P.terms.items():
                r.iadd_term(q, g, _mul_atoms(atoms, [
                    (x, -k) for x, k in low]), c)
            f = Poly()
            f.iadd_term((), TRUE, _mul_atoms((), [(x, -k) for x, k in low]),
                        Fraction(1))
            return mul(as_term(f), inverse(as_term(r)))
    # normalise leading coefficient
    t = as_term(P)
    c = lead(t)
    if c not in (0, 1):
        t2 = as_term(Poly().iadd(as_poly(t), scale=1 / c))
        r = Poly()
        r.iadd_term((), TRUE, ((t2, -1),), 1 / c)
        return as_term(r)
    return mk("recip", t)


def lead(t):
    """coefficient of the first monomial in canonical order"""
    if t.op == "poly":
        return t.args[0][0][1][0][0]
    if is_num(t):
        return t.args[1]
    return Fraction(1)


def div(a, b):
    return mul(a, inverse(b))


def power(a, b):
    if is_num(b) and b.args[1].denominator == 1 and abs(b.args[1]) <= 8:
        n = int(b.args[1])
        if n == 0:
            return ONE
        base = a if n > 0 else inverse(a)
        r = as_poly(base)
        out = p_const(1)
        for _ in range(abs(n)):
            out = p_mul(out, r)
        return as_term(out)
    if is_num(a) and a.args[1] == 1:
        return ONE
    if lead(b) < 0:
        return mk("recip", mk("pow", a, neg(b)))
    return mk("pow", a, b)


def summation(quants, guard, body):
    """sum over quants of [guard]*body"""
    P = as_poly(body)
    r = Poly()
    qs = tuple(quants)
    for (q, g, atoms), c in P.terms.items():
        r.iadd_term(tuple(sorted(qs + q, key=lambda x: x[0])),
                    b_and(g, guard), atoms, c)
    return as_term(r)


# ---------------------------------------------------------------- access
ATTR_HOOKS = []
IDX_HOOKS = []


def attr(base, name):
    if base.op == "cases":
        return cases([(g, attr(v, name)) for g, v in base.args[0]])
    for h in ATTR_HOOKS:
        r = h(base, name)
        if r is not None:
            return r
    return mk("attr", base, name)


def flat_keys(keys):
    out = []
    for k in keys:
        if k.op == "tuple":
            out.extend(flat_keys(k.args))
        else:
            out.append(k)
    return tuple(paired(out))


def idx(base, keys):
    keys = flat_keys(keys)
    if base.op == "cases":
        return cases([(g, idx(v, keys)) for g, v in base.args[0]])
    for n, k in enumerate(keys):
        if k.op == "cases":
            return cases([(g, idx(base, keys[:n] + (v,) + keys[n + 1:]))
                          for g, v in k.args[0]])
    if base.op == "tuple" and len(keys) == 1 and is_num(keys[0]):
        i = int(keys[0].args[1])
        if -len(base.args) <= i < len(base.args):
            return base.args[i]
    if base.op == "tuple" and len(keys) == 1 and keys[0].op == "slice" and \
            not any(x.op == "star" for x in base.args) and all(
                x is NONE or is_num(x) for x in keys[0].args):
        return mk("tuple", *base.args[slice(*[
            None if x is NONE else int(x.args[1]) for x in keys[0].args])])
    if base.op == "idx" and len(keys) == len(base.args[1]) == 1 and \
            base.args[1][0].op == "slice" and is_num(keys[0]):
        # x[1:3][0] is x[1]
        k, (lo, hi, by) = keys[0].args[1], base.args[1][0].args
        lo = ZERO if lo is NONE else lo
        if k >= 0 and by is NONE and all(
                is_num(x) and x.args[1] >= 0 for x in (lo, hi)
                if x is not NONE) and (
                hi is NONE or k < hi.args[1] - lo.args[1]):
            return idx(base.args[0], (const(lo.args[1] + k),))
    for h in IDX_HOOKS:
        r = h(base, keys)
        if r is not None:
            return r
    return mk("idx", base, keys)


def call(fn, args=(), kwargs=()):
    return mk("call", fn, tuple(args),
              tuple(sorted(kwargs, key=lambda kv: kv[0])))


def part_of(t, k):
    """x if t is the element k of an x drawn from a collection"""
    if t.op == "idx" and len(t.args[1]) == 1 and t.args[0].op == "bv" and \
            t.args[1][0] is const(k):
        return t.args[0]
    return None


def paired(items):
    """(x[0], x[1]) of an x drawn from a collection (of pairs) is x"""
    out, n = [], 0
    while n < len(items):
        x = part_of(items[n], 0)
        if x is not None and n + 1 < len(items) and \
                part_of(items[n + 1], 1) is x:
            out.append(x)
            n += 2
            k = 2
            while n < len(items) and part_of(items[n], k) is x:
                n, k = n + 1, k + 1
        else:
            out.append(items[n])
            n += 1
    return out


def tup(items):
    new = paired(items)
    if len(new) == 1 < len(items):
        return new[0]
    return mk("tuple", *items)


# ---------------------------------------------------------------- display
def show(t, top=True):
    op, a = t.op, t.args
    if op == "const":
        k, v = a
        if k == "num":
            return str(v)
        if k == "str":
            return repr(v)
        return {"inf": v + "inf"}.get(k, str(v))
    if op == "sym":
        return a[0]
    if op == "card":
        return f"|{a[0]}|"
    if op == "bv":
        i = a[0].replace("~", "")
        return i if a[1] == 0 else f"{i}.{a[1]}"
    if op == "true":
        return "True"
    if op == "false":
        return "False"
    if op == "undef":
        return "<undef>"
    if op == "attr":
        return f"{show(a[0])}.{a[1]}"
    if op == "idx":
        return f"{show(a[0])}[{', '.join(show(k) for k in a[1])}]"
    if op == "tuple":
        return "(" + ", ".join(show(x) for x in a) + ")"
    if op == "call":
        ar = [show(x) if isinstance(x, T) else str(x) for x in a[1]]
        ar += [f"{k}={show(v)}" for k, v in a[2]]
        return f"{show(a[0])}({', '.join(ar)})"
    if op == "recip":
        return f"1/({show(a[0])})"
    if op == "pow":
        return f"({show(a[0])})**({show(a[1])})"
    if op == "cases":
        return "{" + "; ".join(
            f"{show(v)} if {show(g)}" for g, v in a[0]) + "}"
    if op == "bdd":
        return show_guard(t)
    if op == "poly":
        out = []
        for q, parts, atoms in a[0]:
            for c, g in parts:
                out.append(_show_mono(q, g, atoms, c))
        s = " + ".join(out).replace("+ -", "- ")
        return s
    if op in ("lt0", "eq0"):
        return f"{show(a[0])} {'<' if op == 'lt0' else '=='} 0"
    if op in ("eq", "is", "in"):
        return f"{show(a[0])} {op if op != 'eq' else '=='} {show(a[1])}"
    if op == "truthy":
        return show(a[0])
    if op == "comp":
        segs = []
        for q, g, e in a[1]:
            s = show(e)
            for i, dom, _, _ in q:
                s += f" for {i.replace('~', '')} in {show(dom)}"
            if g is not TRUE:
                s += f" if {show(g)}"
            segs.append(s)
        return f"{a[0]}[" + "; ".join(segs) + "]"
    return f"{op}(" + ", ".join(_show_any(x) for x in a) + ")"


def _show_any(x):
    if isinstance(x, T):
        return show(x)
    if isinstance(x, tuple):
        return "(" + ",".join(_show_any(y) for y in x) + ")"
    return str(x)


def _show_mono(q, g, atoms, c):
    num = [show(x) if x.op != "poly" else f"({show(x)})"
           for x, k in atoms for _ in range(max(k, 0))]
    den = [show(x) if x.op != "poly" else f"({show(x)})"
           for x, k in atoms for _ in range(max(-k, 0))]
    s = "*".join(num) or "1"
    if c == -1:
        s = "-" + s
    elif c != 1:
        s = f"{c}*{s}" if num else str(c)
    for d in den:
        s += f"/{d}"
    if g is not TRUE:
        s = f"[{show_guard(g)}]*{s}"
    if q:
        doms = ", ".join(f"{i} in {show(d)}" for i, d, _, _ in q)
        s = f"SUM({doms}: {s})"
    return s


def show_guard(f):
    if f.op != "bdd":
        return "True" if f is TRUE else "False"
    cubes = []

    def rec(f, lits):
        if len(cubes) > 12:
            return
        if f is TRUE:
            cubes.append(" and ".join(lits) or "True")
        elif f.op == "bdd":
            a, hi, lo = f.args
            rec(hi, lits + [f"({show(a)})"])
            rec(lo, lits + [f"not ({show(a)})"])

    rec(f, [])
    return " or ".join(cubes)
