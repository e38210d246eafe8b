"""Flow-sensitive, gated value numbering of Python model-building code.

Every function is walked once per calling context.  Branches are joined with
gated (guarded) values, loops are summarised (sums, quantified effects or
recurrence terms), user functions are inlined, everything else is an
uninterpreted term.  The result is a list of effects (constraints, variables,
bounds, raises, attribute stores, external calls) each with the quantifiers
and the guard under which it happens.
"""
import ast
import builtins
import copy
import itertools
import os

from . import kept as outlive
from . import terms as tm
from .terms import (FALSE, NONE, ONE, PYFALSE, PYTRUE, TRUE, UNDEF, ZERO, T,
                    Poly, a_eq, a_eq0, a_is, a_lt0, a_truthy, add, as_poly,
                    as_term, b_and, b_not, b_or, b_simplify, bv, call, cases,
                    const, div, fresh_id, idx, inverse, is_const, is_guard,
                    is_num, is_str, ite, lit, mk, mul, neg, power, pyval,
                    rename_ids, sub, subst, summation, sym, tup)

M = sym("M")
NAN = sym("mod:numpy.nan")
ALLFLOWS = sym("FGROUP:SimpleFlowBlock")
OPAQUE_FUNCS = {"sequence", "valid_sequence"}
PYOMO_COMPONENTS = {"Constraint", "Var", "Set", "BuildAction", "Expression",
                    "Objective", "Param", "ConstraintList", "Suffix",
                    "Block", "SOSConstraint", "Piecewise", "VarList",
                    "RangeSet", "BuildCheck", "Reference"}
DOMAINS = {"Binary", "Reals", "NonNegativeReals", "NonNegativeIntegers",
           "Integers", "PositiveReals", "Boolean", "NonPositiveReals",
           "UnitInterval", "PositiveIntegers", "Any", "NegativeReals",
           "PercentFraction"}
for _s in ("sequence", "Set"):
    tm.NEVER_NONE.add(sym(_s))
tm.NEVER_NONE.discard(sym("sequence"))  # sequence(None) is None

# ------------------------------------------------------------- set knowledge
ARITY = {"flows": ("obj", "obj"),
         "TYPICAL_CLUSTERS": ("nat", "nat"),
         "TIMEINDEX_CLUSTER": ("nat", "nat", "nat"),
         "TIMEINDEX_TYPICAL_CLUSTER": ("nat", "nat", "nat"),
         "TIMEINDEX_TYPICAL_CLUSTER_OFFSET": ("nat", "nat", "nat"),
         "BIDIRECTIONAL_FLOWS": ("obj", "obj"),
         "UNIDIRECTIONAL_FLOWS": ("obj", "obj")}
SORT = {"TIMESTEPS": "nat:TIMESTEPS", "TIMEPOINTS": "nat:TIMESTEPS+1",
        "PERIODS": "nat:PERIODS", "CLUSTERS": "nat:CLUSTERS",
        "CLUSTERS_OFFSET": "nat:CLUSTERS+1"}
CARD = {"TIMESTEPS": ("TIMESTEPS", 0), "TIMEPOINTS": ("TIMESTEPS", 1),
        "PERIODS": ("PERIODS", 0), "CLUSTERS": ("CLUSTERS", 0),
        "CLUSTERS_OFFSET": ("CLUSTERS", 1)}


def card_of(t):
    """cardinality term of a known index set, else None"""
    if t.op == "attr" and t.args[0] is M and t.args[1] in CARD:
        b, o = CARD[t.args[1]]
        return add(mk("card", b), const(o))
    if t.op == "attr" and t.args[1] == "timeincrement":
        return mk("card", "TIMESTEPS")
    if t.op == "attr" and t.args[0] is M and t.args[1] == "TIMEINDEX":
        return mk("card", "TIMESTEPS")
    return None


ALIASES = {}
APART = {"inputs": "outputs", "outputs": "inputs"}
DISJOINT = {}       # APART, where a component is known to keep them apart

# facts about attribute values (declared types in the class docstrings)
tm.BOOL_ATTR.append(lambda t: t.args[1] in ("balanced", "integer") or (
    t.args[1] == "nonconvex" and t.args[0].op == "attr"
    and t.args[0].args[1] == "investment"))
# an Investment without custom properties has empty ones (see P25)
tm.NONE_NEVER.append(lambda t: t.args[1] == "custom_properties"
                     and t.args[0].args[1] == "investment")
tm.OBJ_ATTR.append(lambda t: t.args[1] == "investment" or (
    t.args[1] == "nonconvex" and t.args[0].op == "idx") or (
    t.args[1] == "periods"))


def _attr_hook(base, name):
    if base is M and name in ("FLOWS", "es.flows"):
        return mk("attr", M, "flows")
    if name in ALIASES and base.op != "sym":
        return mk("attr", base, ALIASES[name])
    return None


MAPPINGS = {"inputs", "outputs", "groups", "flows", "conversion_factors",
            "conversion_factor_full_condensation", "custom_properties",
            "custom_attributes", "electrical_input", "electrical_output",
            "heat_output", "fuel_input", "columns", "params", "index",
            "nodes", "NODES"}


def nth(b, k):
    """the k-th element that an iteration yields"""
    if b.op == "attr" and b.args[1] not in MAPPINGS and is_num(k) and \
            not _of_model(b):
        return idx(b, (k,))        # a list
    return mk("nth", b, k)


def _idx_hook(base, keys):
    if base.op == "attr" and base.args[0] is M and base.args[1] in CARD \
            and len(keys) == 1:
        return nth_pyomo(base, keys[0])
    if base.op == "idx" and len(keys) == 1 and is_num(keys[0]) and \
            base.args[0].op == "attr" and base.args[0].args[0] is M and \
            base.args[0].args[1] == "TIMEINDEX" and len(base.args[1]) == 1:
        # TIMEINDEX holds (period, timestep) ordered by timestep, 1 based
        pos = nth_pyomo(tm.attr(M, "TIMESTEPS"), base.args[1][0])
        if keys[0] is ONE:
            return pos
        if keys[0] is ZERO:
            return idx(sym("PERIOD_OF"), (pos,))
    if base.op == "aslist" and len(keys) == 1 and keys[0].op != "slice":
        b = base.args[0]
        c = card_of(b) if b.args[-1] in CARD else None
        k = keys[0]
        if c is not None:
            if is_num(k) and k.args[1] < 0:
                return add(c, k)
            return k
        return nth(b, k)
    return None


def nth_pyomo(base, k):
    """Set.at(k): 1 based, negative from the end; sets hold 0..n-1"""
    c = card_of(base)
    if is_num(k):
        v = int(k.args[1])
        return const(v - 1) if v > 0 else add(c, const(v))
    return sub(k, ONE)


tm.ATTR_HOOKS.append(_attr_hook)
tm.IDX_HOOKS.append(_idx_hook)


def compared_node(q, g):
    """K if g says that the node of the quantifier is (not) K"""
    if len(q) != 1 or q[0][2] != 1:
        return None
    (i, dom, ar, so), = q
    if dom.op != "attr" or dom.args[1] not in ("inputs", "outputs"):
        return None
    for h in (g, b_not(g)):
        if h.op == "bdd" and h.args[1] is TRUE and h.args[2] is FALSE and \
                h.args[0].op == "eq0":
            p, x = h.args[0].args[0], bv(i, 0, so)
            for r in (add(p, x), sub(x, p)):
                if i not in r.free:
                    return r
    return None


def different(s):
    """the elements differ from each other"""
    return len(s.q) == 1 and s.q[0][2] == 1 and isinstance(s.e, T) and \
        s.e.op == "bv" and s.e.args[0] == s.q[0][0] and \
        s.q[0][1].op == "attr" and s.q[0][1].args[1] in (
            "inputs", "outputs", "nodes", "NODES")


def main_flow(k):
    return k is not None and k.op == "nth" and k.args[0].op == "attr" and \
        k.args[0].args[1] == "conversion_factor_full_condensation"


def exists(q, g):
    """guard: there is an assignment of q with g"""
    if not q or g is FALSE:
        return g
    for n, (i, d, ar, so) in enumerate(q):
        if d.op == "cases":
            return b_or(*[b_and(c, exists(
                tuple(q[:n]) + ((i, x, ar, so),) + tuple(q[n + 1:]), g))
                for c, x in d.args[0]])
        if d.op == "tuple" and ar == 1 and not any(
                x.op == "star" for x in d.args):
            out = []
            for x in d.args:
                m = {bv(i, 0, so): x}
                out.append(exists(tuple(
                    (j, subst(e, m), a, s2) for j, e, a, s2 in
                    tuple(q[:n]) + tuple(q[n + 1:])), subst(g, m)))
            return b_or(*out)
    if main_flow(compared_node(q, g)):
        return TRUE     # two outputs, the main flow is one of them
    # split off atoms independent of q
    ids = {x[0] for x in q}
    for a in sorted(tm.b_atoms(g), key=lambda x: x.key):
        if not (a.free & ids):
            return tm.b_ite(
                lit(a), exists(q, tm.b_restrict(g, a, True)),
                exists(q, tm.b_restrict(g, a, False)))
    q2, g2, _ = tm._dom_norm(tuple(q), g, (), True)
    if not q2:
        return g2
    if q2 != tuple(q):
        return exists(q2, g2)
    used = set(g.free)
    ch = True
    keep = list(q)
    while ch:
        ch = False
        for x in keep:
            if x[0] not in used and not any(
                    x[0] in y[1].free for y in keep if y is not x):
                if g is not TRUE or len(keep) > 1:
                    keep.remove(x)
                    ch = True
                    break
    if not keep:
        return g
    if len(keep) == 1:
        r = at_end(keep[0], g)
        if r is None:
            r = at_sum(keep[0], g)
        if r is not None:
            return r
    q3, m = tm.canon_binders(tuple(keep), [g], [])
    return lit(mk("any", mk("comp", "exists",
                            ((q3, TRUE, rename_ids(g, m)),))))


tm.exists = exists


def literals(g):
    """[(atom, sign)] if g is a conjunction of literals"""
    out = []
    while g is not TRUE:
        if g.op != "bdd":
            return None
        a, hi, lo = g.args
        if lo is FALSE:
            out.append((a, True))
            g = hi
        elif hi is FALSE:
            out.append((a, False))
            g = lo
        else:
            return None
    return out


# lists whose elements are told apart by their position
POSITIONED = {tm.attr(tm.attr(M, "es"), "tsa_parameters"),
              tm.attr(tm.attr(M, "es"), "periods")}


def mapped(t):
    """x if t is x.values() of a mapping x"""
    if t.op == "call" and t.args[0].op == "attr" and not t.args[1] and \
            t.args[0].args[1] == "values":
        x = t.args[0].args[0]
        if x.op == "attr" and x.args[1] in MAPPINGS:
            return x
    return None


def per_period(t):
    """one entry per row of the matrix of periods"""
    return t.op == "call" and t.args[0] is sym("mod:numpy.argmin") and \
        len(t.args[1]) == 1 and t.args[2] == (("axis", ONE),) and \
        tm.mentions(t.args[1][0], tm.attr(tm.attr(M, "es"), "periods_matrix"))


def clusters(X, x):
    """the number of clusters if X is that of period x"""
    a = tm.length_of(X)
    if a is None or a.op != "idx" or a.args[1] != (const("order"),):
        return None
    b = a.args[0]
    if b.op == "idx" and b.args[1] == (x,) and b.args[0] is tm.attr(
            tm.attr(M, "es"), "tsa_parameters"):
        return mk("card", "CLUSTERS")
    return None


def at_sum(q, g):
    """there is an element up to which lengths sum up to more than some
    value: they do over all elements"""
    i, dom, ar, so = q
    lits = literals(g)
    if ar != 1 or card_of(dom) is None or not lits or len(lits) != 1 or \
            lits[0][0].op != "lt0" or not lits[0][1]:
        return None
    x = bv(i, 0, so)
    p = lits[0][0].args[0]
    for (qq, gg, atoms), c in as_poly(p).terms.items():
        if not qq and gg is TRUE and c == -1 and len(atoms) == 1 and \
                atoms[0][1] == 1 and i in atoms[0][0].free and \
                tm.length_of(atoms[0][0]) is not None:
            X = atoms[0][0]
            y = bv(fresh_id("i"), 0, so)
            d = ((y.args[0], dom, ar, so),)
            X2 = subst(X, {x: y})
            rest = add(p, add(X, summation(
                d, tm.a_lt0(as_poly(sub(y, x))), X2)))
            if i in rest.free:
                continue
            total = clusters(X, x)
            if total is None or dom is not tm.attr(M, "PERIODS"):
                total = summation(d, TRUE, X2)
            return tm.a_lt0(sub(rest, total))
    return None


def at_end(q, g):
    """there is an element q of a counted set with g, where g is a lower
    bound of rising values and of q, and an upper bound of q: the last
    admissible element decides"""
    i, dom, ar, so = q
    n = card_of(dom)
    lits = literals(g)
    if ar != 1 or n is None or not lits:
        return None
    x = bv(i, 0, so)
    hi, low, rise = sub(n, ONE), [], False
    for a, sign in lits:
        if a.op == "eq0" and not sign and a.args[0] is x:
            low.append(b_not(tm.lit(a)))
            continue
        if a.op != "lt0":
            return None
        p = a.args[0]
        lin = tm._linear_int(p)
        if lin is not None and lin[1].get(x) in (1, -1):
            k = lin[1][x]
            if (k == 1) != sign:        # q >= ..
                low.append(b_ite(tm.lit(a), TRUE, FALSE) if sign
                           else b_not(tm.lit(a)))
                continue
            # sign: x + r <= -1; otherwise -x + r >= 0
            if hi is not None and hi is not sub(n, ONE):
                return None
            hi = sub(neg(sub(p, x)), ONE) if sign else add(p, x)
            continue
        terms = [(atoms, c, qq, gg) for (qq, gg, atoms), c in as_poly(
            p).terms.items() if qq or gg.free or any(
                i in y.free for y, _ in atoms)]
        if len(terms) != 1:
            return None
        (atoms, c, qq, gg), = terms
        if qq or gg is not TRUE or len(atoms) != 1 or atoms[0][1] != 1:
            return None
        y = atoms[0][0]
        if y.op != "idx" or y.args[1] != (x,) or not tm.rising(y.args[0]) or \
                (c < 0) != sign:
            return None
        rise = True
        low.append(tm.lit(a) if sign else b_not(tm.lit(a)))
    if not rise:
        return None
    return b_and(b_not(tm.a_lt0(hi)), *[subst(f, {x: hi}) for f in low])


def found_first(x, y):
    """x == next(element of a counted set with .., None)"""
    if y.op == "call" and y.args[0] is sym("next") and len(
            y.args[1]) == 2 and y.args[1][1] is NONE:
        c = y.args[1][0]
    elif y.op == "first":
        c = y.args[0]
    else:
        return None
    if c.op != "comp" or len(c.args[1]) != 1 or not (
            x.op == "bv" or is_num(x)):
        return None
    (q, g, e), = c.args[1]
    if y.op == "first":
        if len(q) != 1:
            return None
        g, e = e, bv(q[0][0], 0, q[0][3])
    if len(q) != 1:
        return None
    i, dom, ar, so = q[0]
    if ar != 1 or card_of(dom) is None or e is not bv(i, 0, so) or (
            x.op == "bv" and x.args[2] != so):
        return None
    j = fresh_id("i")
    z = bv(j, 0, so)
    n = card_of(dom)
    return b_and(
        subst(g, {e: x}), tm.a_lt0(as_poly(sub(x, n))),
        b_not(tm.a_lt0(as_poly(x))),
        b_not(exists(((j, dom, ar, so),), b_and(
            subst(g, {e: z}), tm.a_lt0(as_poly(sub(z, x)))))))


tm.EQ_HOOKS.append(found_first)


def counted(p):
    """(c, sign, there is one) for c + sign * (a number of elements)"""
    P = as_poly(p)
    c, sign, some = 0, None, FALSE
    for (q, g, atoms), k in P.terms.items():
        if atoms or not q and g is not TRUE:
            return None
        if not q:
            c = k
            continue
        if k.denominator != 1 or sign not in (None, k > 0):
            return None
        sign = k > 0
        some = b_or(some, exists(q, g))
    return None if sign is None else (c, 1 if sign else -1, some)


def none_counted(p, op):
    r = counted(p)
    if r is None:
        return None
    c, sign, some = r
    if op == "eq0":
        return b_not(some) if c == 0 else FALSE if (c > 0) == (
            sign > 0) else None
    if sign > 0:
        return FALSE if c >= 0 else b_not(some) if c >= -1 else None
    return some if -1 < c <= 0 else TRUE if c < 0 else None


tm.NUM_HOOKS.append(none_counted)
tm.counted = counted

# ---------------------------------------------------------- iteration


def _truth_of(t):
    """a computed collection is true if it has elements"""
    if t.op == "comp":
        return b_or(*[exists(q, g) for q, g, e in t.args[1]])
    return None


tm.TRUTH_HOOKS.append(_truth_of)


# ------------------------------------------------------------- value wrappers
CURRENT = [None]


ORDERS = {"min": "min", "max": "max", "back": "back", "None": None}
TURNED = {"": "back", "back": "", "min": "max", "max": "min"}


class Seg:
    __slots__ = ("q", "g", "e", "k", "additive", "order")

    def __init__(self, q, g, e, k=None, additive=False):
        self.order = ""     # of the elements, see ListObj
        if q and (isinstance(e, NewObj) or isinstance(k, NewObj)):
            e, k = kept(q, e), kept(q, k)
        self.q, self.g, self.e, self.k = tuple(q), g, e, k
        self.additive = additive
        if q and CURRENT[0] is not None and CURRENT[0].seglog is not None:
            CURRENT[0].seglog.append(self)


OPERATORS = {ast.Add: "add", ast.Sub: "sub", ast.Mult: "mul",
             ast.Div: "truediv", ast.FloorDiv: "floordiv", ast.Mod: "mod",
             ast.Pow: "pow", ast.MatMult: "matmul", ast.BitOr: "or",
             ast.BitAnd: "and"}
COMPARISONS = {ast.Eq: ("eq", "eq"), ast.Lt: ("lt", "gt"),
               ast.Gt: ("gt", "lt"), ast.LtE: ("le", "ge"),
               ast.GtE: ("ge", "le")}


def kept(q, v):
    """v, held in a collection: one object of each iteration"""
    if not isinstance(v, NewObj) or not {x[0] for x in q} & set(v.ctx):
        return v
    v.frozen = True
    return CURRENT[0].term(v)


# first parameter of functions of other packages
FIRST = {"pandas.date_range": "start", "pandas.Series": "data",
         "pandas.DataFrame": "data", "pandas.concat": "objs"}


def in_order(order, q):
    """the quantifiers of what depends on the order of the elements"""
    return q if order == "" else tuple(
        (i, mk("resorted", str(order), dom), ar, so)
        for i, dom, ar, so in q)


def ordered(r, order):
    r.order = order
    return r


class ListObj:
    # "min", "max": sorted from there, "back": turned round, None: by a key
    order = ""

    def __init__(self, kind="list", segs=None, depth=0):
        self.kind, self.segs, self.depth = kind, segs or [], depth
        self.version = 0
        self.alias = None
        self.read_at, self.uses = None, []
        self.shared = False     # held by all keys of a mapping
        self.pc0 = CURRENT[0].pc if CURRENT[0] is not None else TRUE


def without_others(g):
    """g, where x == 2 says that x == 3 does not hold"""
    at = [a for a in tm.b_atoms(g) if a.op == "eq0"]
    for a in at if len(at) > 1 else ():
        if tm.b_restrict(g, a, False) is not FALSE:
            continue
        for b in at:
            if b is not a and is_num(sub(a.args[0], b.args[0])):
                g = b_and(tm.b_restrict(g, b, False), lit(a))
    return g


def from_pandas(t, seen=None):
    """t is computed from what a pandas function gave"""
    seen = set() if seen is None else seen
    if not isinstance(t, (T, tuple)) or id(t) in seen:
        return False
    seen.add(id(t))
    if isinstance(t, T):
        if t.op == "sym":
            return str(t.args[0]).startswith("pandas.")
        t = t.args
    return any(from_pandas(x, seen) for x in t)


def settled(k):
    """the terms a key determines, given that labels are unique"""
    out, todo, ends = [], [k], {}
    while todo:
        x = todo.pop()
        if not isinstance(x, T):
            continue
        if x.op == "tuple":
            todo.extend(x.args)
            continue
        out.append(x)
        if x.op == "attr" and x.args[1] == "label":
            todo.append(x.args[0])
        elif x.op == "call" and x.args[0] in (sym("str"), sym("id")) and \
                len(x.args[1]) == 1:
            todo.append(x.args[1][0])
        elif x.op == "pos":
            todo.append(x.args[1])
        elif x.op == "idx" and len(x.args[1]) == 1 and is_num(x.args[1][0]):
            y = x.args[0]
            ends.setdefault(y, set()).add(x.args[1][0].args[1])
            if {0, -1} <= ends[y] and y.op == "call" and \
                    y.args[0].op == "attr" and y.args[0].args[1] == "split":
                todo.append(y.args[0].args[0])
            elif {0, 1} <= ends[y] and y.op == "bv":
                todo.append(y)
    return out


def first_of(k, q):
    """of the iterations with this key, one"""
    return a_truthy(mk("only one of", k, tuple(
        bv(i, n, so) for i, d, ar, so in q for n in range(ar))))


def met(g, *content):
    """where it does not matter how often something is met, if all that is
    done depends on the key alone"""
    for a in tm.b_atoms(g):
        if a.op != "truthy" or a.args[0].op != "only one of":
            continue
        k, bvs = a.args[0].args
        rest = tm.b_restrict(g, a, True)
        m = {x: sym(f"settled:{n}") for n, x in enumerate(settled(k))}
        ids = {x.args[0] for x in bvs if x.op == "bv"}
        todo, ok = list(content), True
        while todo and ok:
            x = todo.pop()
            if isinstance(x, (tuple, list)):
                todo.extend(x)
            elif isinstance(x, dict):
                todo.extend(x.values())
            elif isinstance(x, T) and x.free & ids:
                ok = not subst(x, m).free & ids
        if ok:
            g = rest
    return g


class DictObj:
    """kind "frame": a pandas.DataFrame as mapping of its columns"""
    factory = None      # of a defaultdict
    alias = None        # (mapping held for a key, its depth, key, this key)

    def __init__(self, segs=None, depth=0, kind="dict"):
        self.segs, self.depth = segs or [], depth
        self.pc0 = CURRENT[0].pc if CURRENT[0] is not None else TRUE
        self.kind = kind
        self.star = []


class Closure:
    def __init__(self, node, frame, module, cls=None, selfv=None):
        self.node, self.frame, self.module = node, frame, module
        self.cls, self.selfv = cls, selfv

    pre, prekw = (), {}
    dvals = {}          # defaults, as they are where it is defined
    after = ()          # what the names in its result stand for

    def copy(self):
        c = Closure(self.node, self.frame, self.module, self.cls, self.selfv)
        c.pre, c.prekw, c.dvals = self.pre, self.prekw, self.dvals
        c.after = self.after
        return c

    def bind(self, selfv):
        if self.pre or self.prekw:
            return self
        c = self.copy()
        c.selfv = selfv
        return c

    def partial(self, args, kw):
        c = self.copy()
        c.pre = tuple(self.pre) + tuple(args)
        c.prekw = {**self.prekw, **kw}
        return c

    def mapped(self, f):
        """f applied to the values it brings along"""
        c = self.copy()
        c.pre = tuple(f(x) for x in self.pre)
        c.prekw = {k: f(x) for k, x in self.prekw.items()}
        c.dvals = {k: f(x) for k, x in self.dvals.items()}
        c.after = tuple(self.after) + (f,)
        return c

    @property
    def name(self):
        return getattr(self.node, "name", "<lambda>")


class ClassRef:
    frame = None    # of the function that defines it

    def __init__(self, module, node):
        self.module, self.node = module, node
        self.name = node.name


def PRELUDE(_made=[]):
    if not _made:
        from . import source
        m = source.Module("solphsa.prelude", os.path.join(
            os.path.dirname(os.path.abspath(__file__)), "prelude.py"), False)
        m.collect()
        _made.append(m)
    return _made[0]


ITERATORS = {"builtins." + x for x in (
    "iter map filter zip enumerate reversed").split()} | {
        "itertools." + x for x in (
            "chain product repeat groupby islice accumulate starmap "
            "filterfalse compress takewhile dropwhile zip_longest "
            "chain.from_iterable combinations permutations pairwise").split()}

# the classes whose objects are compared by what they are made with; all
# others in the repository only help to compute something
KNOWN = set("""
Bus BusBlock Converter ConverterBlock EnergySystem ExtractionTurbineCHP
ExtractionTurbineCHPBlock Flow GenericCAES GenericCAESBlock GenericCHP
GenericCHPBlock GenericInvestmentStorageBlock GenericStorage
GenericStorageBlock InvestNonConvexFlowBlock Investment InvestmentFlowBlock
Link LinkBlock LoggingError Model NodeOption NonConvex NonConvexFlowBlock
OffsetConverter OffsetConverterBlock PiecewiseLinearConverter
PiecewiseLinearConverterBlock Results SimpleFlowBlock Sink Source
_FakeSequence""".split())


class NewObj:
    """an object of a class that only helps; its attributes are in the heap
    under its symbol"""
    frozen = False

    def __init__(self, cls, name, ctx):
        self.cls, self.name, self.ctx = cls, name, ctx
        self.sym = sym(fresh_id("NEW:"))


class Value:
    """what a method without arguments gives, or how to compute it"""

    def __init__(self, v):
        self.v = v


class TupleType:
    """a namedtuple: its values are tuples"""

    def __init__(self, name, fields, defaults=(), cls=None):
        self.name, self.fields, self.cls = name, list(fields), cls
        self.defaults = list(defaults)


KINDS = ("dict", "list", "tuple", "DatetimeIndex", "str")


class ModRef:
    def __init__(self, name):
        self.name = name


class ObjRef:
    def __init__(self, term, cls):
        self.term, self.cls = term, cls


class SuperRef:
    def __init__(self, cls, selfv):
        self.cls, self.selfv = cls, selfv


class TMethod:
    """method of an opaque/builtin value"""

    def __init__(self, base, name, term):
        self.base, self.name, self.term = base, name, term


class CompRef:
    """a created pyomo component living under `term`"""

    def __init__(self, kind, term, domain=None):
        self.kind, self.term, self.domain = kind, term, domain


class Component:
    """component constructor call, not yet attached"""

    def __init__(self, kind, args, kw, loc):
        self.kind, self.args, self.kw, self.loc = kind, args, kw, loc


class CasesV:
    def __init__(self, items):
        self.items = items


class TooLong(BaseException):
    pass


class Effect:
    __slots__ = ("kind", "name", "q", "g", "v", "loc", "fn")

    def __init__(self, kind, name, q, g, v, loc, fn):
        self.kind, self.name, self.q, self.g = kind, name, tuple(q), g
        self.v, self.loc, self.fn = v, loc, fn

    def __repr__(self):
        return f"<{self.kind} {self.name} {self.loc}>"


class Frame:
    def __init__(self, module, parent=None, fn="", cls=None, selfv=None):
        self.vars = {}
        self.module, self.parent, self.fn = module, parent, fn
        self.cls, self.selfv = cls, selfv
        self.returns = []
        self.loops = []
        self.yields = None
        self.globals = set()


class LoopRec:
    def __init__(self):
        self.conts, self.breaks = [], []


class Unsupported(Exception):
    pass


def number_like(t):
    if t is NONE or t is PYTRUE or t is PYFALSE or is_guard(t) or \
            t.op == "relcases":
        return False
    if t.op == "fix":
        return number_like(t.args[3][0][1])
    if t.op == "cases":
        return all(number_like(v) for _, v in t.args[0])
    if t.op == "last" and t.args[0].op == "comp":
        return all(number_like(e) for _, _, e in t.args[0].args[1])
    return True


def arith_use(t, x):
    """x is a summand or factor somewhere in t"""
    seen, todo = set(), [t]
    while todo:
        u = todo.pop()
        if u in seen:
            continue
        seen.add(u)
        if u.op == "poly" and any(a is x for _, _, at in u.args[0]
                                  for a, k in at):
            return True
        todo.extend(tm._walk_args(u.args))
    return False


# methods of the columns of tables
COMPARED = {"eq": ast.Eq(), "ne": ast.NotEq(), "lt": ast.Lt(), "le": ast.LtE(),
            "gt": ast.Gt(), "ge": ast.GtE()}

BUILTINS = {"sum", "len", "range", "list", "set", "tuple", "dict", "sorted",
            "enumerate", "zip", "max", "min", "abs", "isinstance", "hasattr",
            "getattr", "setattr", "any", "all", "map", "filter", "iter",
            "next", "reversed", "print", "str", "int", "float", "bool",
            "type", "round", "super", "frozenset", "callable", "id", "repr",
            "property", "staticmethod", "classmethod", "slice", "object",
            "divmod", "pow", "vars", "dir", "open", "hash", "issubclass",
            "delattr", "globals", "locals", "format"}


GROUP_ATTRS = {"INVESTFLOWS", "INVESTSTORAGES", "INVEST_NON_CONVEX_FLOWS",
               "investment_costs", "period_investment_costs", "invest",
               "total"}
SPEC_NAMES = {"require", "integer", "binary", "variable", "objective",
              "expression", "reject", "store", "opaque", "cls", "symbol",
              "form", "announce"}


# blocks that each model has; the others exist if their group has members
ALWAYS = {"BusBlock", "SimpleFlowBlock", "InvestmentFlowBlock",
          "NonConvexFlowBlock", "InvestNonConvexFlowBlock"}


def _extreme(t):
    return t.op == "call" and t.args[0].op == "sym" and \
        t.args[0].args[0] in ("min", "max") and t.args[1]


def _of_model(t):
    """the term contains something of the optimisation model"""
    todo, seen = [t], set()
    while todo:
        x = todo.pop()
        if x in seen:
            continue
        seen.add(x)
        if x.op == "sym" and (x is M or x.args[0].endswith("Block")):
            return True
        todo.extend(tm._walk_args(x.args))
    return False


class Interp:
    MAXDEPTH = 60

    def __init__(self, repo, opaque=(), spec=None):
        self.repo = repo
        self.opaque = OPAQUE_FUNCS | set(opaque)
        self.opaque_methods = set()
        self.forms = set()      # alternative formulations in use
        self.forms_seen = set()
        self.seglog = None      # list segments made in the running loop
        self.series = None      # term -> length of it, if it is a series
        self.no_exc = False     # True: calls of other packages succeed
        self.tables = None      # the module tables, if tables are followed
        self.pc = TRUE
        self.ctx = []
        self.effects = []
        self.heap = {}
        self._alive = (0, TRUE)
        self.patterns = []
        self.unknown = []
        self.lookups = []
        self.turned = []    # loops over elements in another order
        self.filling = []
        self.depth = 0
        self.loc = ("?", 0)
        self.fnstack = []
        self.classmap = {}
        self.dom_class = {}
        self.owner = None
        self.visited_functions = set()
        self.call_sites = 0
        self.held = {}      # name of function: its value, given arguments
        self.modframes = {}
        self.unroll = 8
        self.current_fn = []
        self.reads = []
        self.nodes = 0
        self.assume = {}
        self.known = KNOWN
        self.helpers = {}       # name -> class of the objects it made
        self.tupletypes = []
        self.flagged = {}       # loop -> (it, its replacement)

    # ---------------------------------------------------------- utilities
    def note_unknown(self, why, node=None):
        line = getattr(node, "lineno", self.loc[1])
        self.unknown.append((self.loc[0], line, why))
        return mk("unknown", fresh_id("u"))

    def emit(self, kind, name=None, v=None, q=None, g=None):
        g = self.pc if g is None else g
        if kind != "objective":
            g = met(g, v)
        e = Effect(kind, name, tuple(self.ctx) if q is None else q,
                   g, v, self.loc,
                   self.fnstack[-1] if self.fnstack else "")
        self.effects.append(e)
        if self.collector is not None:
            self.collector.append((self, e, self.fnstack[0] if self.fnstack
                                   else None))
        return e

    collector = None    # of all effects, whatever is read

    # ---------------------------------------------------------- conversions
    def term(self, v):
        """python-side value -> T"""
        if isinstance(v, T):
            return v
        if isinstance(v, ListObj):
            t = self.freeze_list(v)
            return t if v.order == "" or v.kind not in ("list", "gen") else \
                mk("resorted", str(v.order), t)
        if isinstance(v, DictObj):
            return self.freeze_dict(v)
        if isinstance(v, CompRef):
            return v.term
        if isinstance(v, ObjRef):
            return v.term
        if isinstance(v, NewObj):
            return mk("record", v.name, tuple(sorted(
                (n, self.term(x)) for (b, n), x in self.heap.items()
                if b is v.sym and x is not UNDEF)))
        if isinstance(v, (ClassRef, TupleType)):
            return mk("cls", v.name)
        if isinstance(v, ModRef):
            return sym("mod:" + v.name)
        if isinstance(v, Closure):
            if v.name != "<lambda>" and v.frame is None and v.selfv is None:
                return sym("fn:" + v.name)
            if v.pre or v.prekw:
                return call(sym("partial:" + v.name), [
                    self.safe_term(x) for x in v.pre], sorted(
                    (k, self.safe_term(x)) for k, x in v.prekw.items()))
            return mk("closure", ast.dump(v.node) if v.name == "<lambda>"
                      else v.name)
        if isinstance(v, TMethod):
            return v.term
        if isinstance(v, CasesV):
            return cases([(g, self.term(x)) for g, x in v.items])
        if isinstance(v, Component):
            if getattr(v, "ref", None) is not None:
                return v.ref
            e = v.kw.get("expr", v.kw.get("initialize"))
            if v.kind == "Expression" and e is not None and not v.args:
                return self.term(e)
            return call(sym("pyomo:" + v.kind),
                        [self.term(a) for a in v.args],
                        [(k, self.term(x)) for k, x in v.kw.items()])
        if isinstance(v, SuperRef):
            return sym("super")
        raise Unsupported(f"term of {type(v)}")

    def freeze_list(self, v):
        if all(not s.q and s.g is TRUE for s in v.segs):
            items = [self.term(s.e) for s in v.segs]
            if v.kind == "set":
                items = sorted(set(items), key=lambda t: t.key)
            if v.kind in ("list", "tuple", "gen"):
                return tup(items)
            return mk("comp", v.kind, tuple(((), TRUE, i) for i in items))
        if len(v.segs) == 1 and v.kind != "set":
            s = v.segs[0]
            if len(s.q) == 1 and s.g is TRUE:
                el = self.term(s.e)
                i, dom, ar, sort = s.q[0]
                if ar == 1 and el is bv(i, 0, sort):
                    return dom if dom.op == "aslist" else mk("aslist", dom)
        out = []
        for s in v.segs:
            out.append(self._canon_seg(s.q, s.g, self.term(s.e)))
        kind = "set" if v.kind == "set" else "seq"
        if kind == "seq" and len(out) > 1:
            out = self.order_exclusive(v.segs, out)
        if kind == "set":
            out = sorted(set(out), key=lambda x: tm._argkey(x))
        return mk("comp", kind, tuple(out))

    def order_exclusive(self, segs, out):
        """neighbours that never exist together have no order"""
        def apart(a, b):
            if {x[0] for x in a.q} & {x[0] for x in b.q}:
                return False
            return b_and(a.g, b.g) is FALSE
        xs = list(zip(segs, out))
        for n in range(len(xs)):
            for i in range(len(xs) - 1):
                a, b = xs[i], xs[i + 1]
                if tm._argkey(b[1]) < tm._argkey(a[1]) and apart(a[0], b[0]):
                    xs[i], xs[i + 1] = b, a
        return [o for _, o in xs]

    def _canon_seg(self, q, g, e):
        if not q:
            return ((), g, e)
        q = self.only_counted(q, g, e)
        q, m = tm.canon_binders(q, [e], [g])
        return (q, rename_ids(g, m), rename_ids(e, m))

    @staticmethod
    def spread(t):
        """x or {}: an empty mapping adds nothing"""
        if t.op == "cases" and len(t.args[0]) == 2:
            for (g, x), (h, y) in (t.args[0], t.args[0][::-1]):
                if x is mk("dict", ()) and y.op in ("sym", "attr") and \
                        g is a_is(y, NONE):
                    return ite(tm.a_truthy(y), y, x)
        return t

    def only_counted(self, q, g, e):
        """elements nobody looks at count like their positions"""
        out = []
        for x in q:
            i, dom, ar, so = x
            if dom.op in ("attr", "idx") and ar == 1 and so == "obj" and \
                    i not in g.free and i not in e.free and not any(
                    i in y[1].free for y in q):
                n = self.b_len([dom], {}, None)
                s = self.iterate(self.b_range([n], {}, None))
                if len(s) == 1 and s[0].g is TRUE and len(s[0].q) == 1:
                    x = (i,) + tuple(s[0].q[0][1:])
            out.append(x)
        return tuple(out)

    def freeze_dict(self, v):
        out = []
        for s in v.segs:
            e = tup([self.term(s.k), self.term(s.e),
                     const(bool(s.additive))])
            out.append(self._canon_seg(s.q, s.g, e))
        out.sort(key=lambda x: tm._argkey(x))
        d = mk("dict", tuple(out))
        if v.kind == "frame":
            return call(sym("pandas.DataFrame"), [d] if out else [])
        return d

    def merge(self, g, a, b):
        if a is b:
            return a
        if a is UNDEF:
            return b
        if b is UNDEF:
            return a
        if isinstance(a, T) and isinstance(b, T):
            for h, x, y in ((g, a, b), (b_not(g), b, a)):
                # the extreme of what may be empty
                if x.op == "call" and x.args[0].op == "sym" and \
                        x.args[0].args[0] in ("min", "max") and \
                        not x.args[2] and len(x.args[1]) == 1 and \
                        x.args[1][0].op in ("list", "tuple", "comp") and \
                        h is self.truth(x.args[1][0]):
                    return call(x.args[0], x.args[1], (("default", y),))
            return ite(g, a, b)
        if type(a) is type(b) and isinstance(a, (ListObj, DictObj)) and \
                a.kind == b.kind and a.depth == b.depth and \
                getattr(a, "alias", None) is getattr(b, "alias", None):
            # the same value made on both ways
            try:
                same = self.term(a) is self.term(b)
            except Unsupported:
                same = False
            if same:
                c = copy.copy(a)
                c.segs = list(a.segs)
                c.pc0 = b_or(a.pc0, b.pc0)
                return c
        ia = a.items if isinstance(a, CasesV) else [(TRUE, a)]
        ib = b.items if isinstance(b, CasesV) else [(TRUE, b)]
        out = []
        for gg, x in ia:
            out.append((b_and(g, gg), x))
        for gg, x in ib:
            out.append((b_and(b_not(g), gg), x))
        res = []
        for gg, x in out:
            if gg is FALSE:
                continue
            for n, (g2, y) in enumerate(res):
                if y is x or (isinstance(x, Closure)
                              and isinstance(y, Closure)
                              and x.node is y.node and x.frame is y.frame
                              and x.pre is y.pre
                              and (x.selfv is y.selfv or not any(
                                  isinstance(z.selfv, NewObj)
                                  for z in (x, y)))) \
                        or (isinstance(x, CompRef) and isinstance(y, CompRef)
                            and x.term is y.term):
                    res[n] = (b_or(gg, g2), y)
                    break
            else:
                res.append((gg, x))
        if len(res) == 1:
            return res[0][1]
        if all(isinstance(x, T) for _, x in res):
            return cases(res)
        return CasesV(res)

    def truth(self, v):
        self.looked_through(v)
        for n in ("__bool__", "__len__"):
            m = self.special(v, n)
            if m is not None:
                return self.truth(self.do_call(m, [], {}, None, None))
        if isinstance(v, T) and v.op == "record":
            return TRUE
        if isinstance(v, T) and v.op == "cases":
            return b_or(*[b_and(g, self.truth(x)) for g, x in v.args[0]])
        if isinstance(v, T) and v.op == "idx" and len(v.args[1]) == 1 and \
                v.args[1][0].op == "slice" and \
                v.args[0].op in ("comp", "aslist"):
            # what remains of a list: it has more elements
            lo, hi, by = v.args[1][0].args
            if is_num(lo) and lo.args[1] >= 0 and hi is NONE and by is NONE:
                return tm.a_lt0(sub(lo, self.b_len(
                    [self._aslist("list", [v.args[0]])], {}, None)))
        if isinstance(v, T):
            return a_truthy(v)
        if isinstance(v, CasesV):
            return b_or(*[b_and(g, self.truth(x)) for g, x in v.items])
        if isinstance(v, ListObj):
            if not v.segs:
                return FALSE
            if any(not s.q and s.g is TRUE for s in v.segs):
                return TRUE
            t = self.term(v)
            if t.op == "aslist":
                return a_truthy(t.args[0])
            parts = []
            for s in v.segs:
                parts.append(self.exists(s.q, s.g))
            return b_or(*parts)
        if isinstance(v, DictObj):
            if not v.segs:
                return FALSE
            return b_or(*[self.exists(s.q, s.g) for s in v.segs])
        return TRUE

    def exists(self, q, g):
        return exists(q, g)

    def refresh(self, s):
        if not s.q:
            return s
        m = {i: fresh_id("i") for i, _, _, _ in s.q}
        q = tuple((m[i], rename_ids(d, m), ar, so) for i, d, ar, so in s.q)
        return Seg(q, rename_ids(s.g, m), self.rename_v(s.e, m),
                   self.rename_v(s.k, m) if s.k is not None else None,
                   s.additive)

    def rename_v(self, v, m):
        if isinstance(v, T):
            return rename_ids(v, m)
        if isinstance(v, ListObj):
            return ordered(ListObj(v.kind, [Seg(
                [(m.get(i, i), rename_ids(d, m), a, s)
                 for i, d, a, s in x.q], rename_ids(x.g, m),
                self.rename_v(x.e, m)) for x in v.segs], v.depth), v.order)
        if isinstance(v, DictObj):
            return DictObj([Seg([(m.get(i, i), rename_ids(d, m), a, s)
                                 for i, d, a, s in x.q],
                                rename_ids(x.g, m),
                                self.rename_v(x.e, m),
                                self.rename_v(x.k, m), x.additive)
                            for x in v.segs], v.depth, v.kind)
        if isinstance(v, CasesV):
            return CasesV([(rename_ids(g, m), self.rename_v(x, m))
                           for g, x in v.items])
        if isinstance(v, Closure) and self.brings(v, set(m)):
            return v.mapped(lambda x: self.rename_v(x, m))
        return v

    def brings(self, c, ids):
        """the function depends on what is bound around its definition"""
        def has(v):
            if isinstance(v, T):
                return bool(v.free & ids)
            if isinstance(v, ListObj):
                return any(has(x.e) or x.g.free & ids for x in v.segs)
            if isinstance(v, DictObj):
                return any(has(x.e) or has(x.k) for x in v.segs)
            return isinstance(v, (CasesV, Closure))
        if any(has(x) for x in (*c.pre, *c.prekw.values(),
                                *c.dvals.values())):
            return True
        f = c.frame
        while f is not None:
            if any(has(x) for x in f.vars.values() if isinstance(x, T)):
                return True
            f = f.parent
        return False

    def strip_iter(self, t):
        while True:
            if t.op == "aslist":
                t = t.args[0]
                continue
            if t.op == "call" and t.args[0].op == "attr" and not t.args[1] \
                    and t.args[0].args[1] in ("keys",):
                t = t.args[0].args[0]
                continue
            return t

    def quant(self, dom, n=None):
        """fresh quantifier over nominal domain; returns (quant, elem T)"""
        name = dom.args[1] if dom.op == "attr" else None
        i = fresh_id("i")
        if dom is ALLFLOWS:
            # every flow is member of this group (see the grouping unit)
            e = [bv(i, 0, "obj"), bv(i, 1, "obj")]
            return ((i, tm.attr(M, "flows"), 2, "obj"),), tup(
                e + [idx(tm.attr(M, "flows"), tuple(e))])
        if dom.op == "sym" and dom.args[0].startswith("FGROUP:"):
            e = [bv(i, 0, "obj"), bv(i, 1, "obj")]
            return ((i, dom, 2, "obj"),), tup(
                e + [idx(tm.attr(M, "flows"), tuple(e))])
        if name == "TIMEINDEX" and dom.args[0] is M:
            j = fresh_id("i")
            p = bv(i, 0, "nat:PERIODS")
            t = bv(j, 0, "nat:TIMESTEPS")
            tip = idx(tm.attr(M, "TIMESTEPS_IN_PERIOD"), (p,))
            return (((i, tm.attr(M, "PERIODS"), 1, "nat:PERIODS"),
                     (j, tip, 1, "nat:TIMESTEPS")), tup([p, t]))
        if name in ARITY and dom.args[0] is M:
            so = ARITY[name]
            return ((i, dom, len(so), "obj"),), tup(
                [bv(i, k, s) for k, s in enumerate(so)])
        if per_period(dom):
            e = bv(i, 0, "nat:PERIODS")
            return ((i, tm.attr(M, "PERIODS"), 1, "nat:PERIODS"),), idx(
                dom, (e,))
        if dom in POSITIONED:
            e = bv(i, 0, "nat")
            return ((i, mk("range", call(sym("len"), [dom])), 1,
                     "nat"),), idx(dom, (e,))
        sort = "obj"
        if name in SORT and dom.args[0] is M:
            sort = SORT[name]
        elif dom.op == "range":
            sort = "nat"
        elif dom.op == "idx" and tm.is_tip(dom.args[0]):
            sort = "nat:TIMESTEPS"
        return ((i, dom, 1, sort),), bv(i, 0, sort)

    def range_segs(self, a, b):
        n = sub(b, a)
        if is_num(n) and n.args[1] <= self.unroll:
            return [Seg((), TRUE, add(a, const(k)))
                    for k in range(int(n.args[1]))]
        # b = card(X) + c ?
        P = as_poly(b)
        card, c = None, 0
        ok = True
        for (q, g, atoms), k in P.terms.items():
            if q or g is not TRUE:
                ok = False
            elif not atoms:
                c = k
            elif len(atoms) == 1 and atoms[0][1] == 1 and \
                    atoms[0][0].op == "card" and k == 1 and card is None:
                card = atoms[0][0]
            else:
                ok = False
        if ok and card is not None and c.denominator == 1 if card else False:
            c = int(c)
            name = card.args[0]
            shift = max(c, 0)
            q, e = self.quant(tm.attr(M, name))
            g = b_and(b_not(a_lt0(sub(e, sub(a, const(shift))))),
                      a_lt0(sub(e, sub(b, const(shift)))))
            return [Seg(q, g, add(e, const(shift)))]
        if a is ZERO and n.op == "poly" and len(as_poly(n).terms) == 1:
            ((q, g, atoms), k), = as_poly(n).terms.items()
            if not q and g is TRUE and k == 1 and len(atoms) == 1 and \
                    atoms[0][1] == 1:
                n = atoms[0][0]
        if a is ZERO and n.op == "call" and n.args[0] is sym("len") and \
                n.args[1][0].op == "call":
            # positions in a computed sequence, as enumerate gives them
            x = n.args[1][0]
            q, e = self.quant(x)
            return [Seg(q, TRUE, mk("pos", x, e))]
        q, e = self.quant(mk("range", n))
        return [Seg(q, TRUE, add(a, e))]

    def iterate(self, v, n=None):
        """list of Seg for iterating value v (n: expected tuple arity)"""
        if self.tables and isinstance(v, self.tables.Tabular):
            r = self.tables.iterate(self, v)
            if r is not None:
                return r
        if isinstance(v, CasesV):
            out = []
            for g, x in v.items:
                for s in self.iterate(x, n):
                    out.append(ordered(Seg(s.q, b_and(g, s.g), s.e),
                                       s.order))
            return out
        if isinstance(v, ListObj):
            self.looked_through(v)
            segs = [self.refresh(s) for s in v.segs]
            if v.kind == "gen" and len(self.ctx) > v.depth:
                # used up by the first of several iterations
                first = a_truthy(sym("first iteration"))
                segs = [Seg(s.q, b_and(s.g, first), s.e, s.k, s.additive)
                        for s in segs]
            segs = self.once(v, segs)
            if v.order != "":
                segs = [Seg(s.q, s.g, s.e, s.k, s.additive) for s in segs]
                for s in segs:
                    s.order = v.order
            return segs
        if isinstance(v, DictObj):
            return [Seg(s.q, s.g, s.k) for s in self.entries(v)]
        if isinstance(v, CompRef) and v.domain is not None:
            return self.iterate(v.domain, n)
        m = self.special(v, "__iter__")
        if m is not None:
            return self.iterate(self.do_call(m, [], {}, None, None), n)
        if isinstance(v, Component) and v.kind == "Set":
            init = v.kw.get("initialize",
                            v.args[0] if v.args else tup([]))
            if isinstance(init, Closure):
                init = self.call_closure(init, [self.model_value()], {},
                                         None)
            return self.iterate(init, n)
        t = self.strip_iter(self.term(v))
        if t.op == "resorted":
            r = ListObj("list", self.iterate(t.args[1], n), len(self.ctx))
            r.order = ORDERS[t.args[0]]
            return self.iterate(r, n)
        if t.op == "tuple":
            return [Seg((), TRUE, x) for x in t.args]
        if t.op == "cases":
            out = []
            for g, x in t.args[0]:
                for s in self.iterate(x, n):
                    out.append(Seg(s.q, b_and(g, s.g), s.e))
            return out
        if t.op == "comp":
            return [self.refresh(Seg(q, g, e)) for q, g, e in t.args[1]]
        if t.op == "dict":
            return self.iterate(self.thaw_dict(t))
        if self.series is not None and self.series(t) is not None:
            return [Seg(s.q, s.g, idx(t, (s.e,)))
                    for s in self.range_segs(ZERO, self.series(t))]
        if t.op == "rangeiter":
            return self.range_segs(*t.args)
        if t.op == "repeat" and t.args[0].op == "tuple" and \
                len(t.args[0].args) == 1:
            return [Seg(s.q, s.g, t.args[0].args[0])
                    for s in self.range_segs(ZERO, t.args[1])]
        if t.op == "call" and t.args[0].op == "attr" and not t.args[1]:
            base, nm = t.args[0].args
            if nm == "items":
                q, e = self.quant(self.strip_iter(base))
                return [Seg(q, TRUE, tup([e, idx(base, (e,))]))]
            if nm == "values":
                q, e = self.quant(self.strip_iter(base))
                return [Seg(q, TRUE, idx(base, (e,)))]
        if t.op == "const":
            if t.args[0] == "str":
                return [Seg((), TRUE, const(ch)) for ch in t.args[1]]
        q, e = self.quant(t, n)
        return [Seg(q, TRUE, e)]

    # ---------------------------------------------------------- state
    def snap(self, fr):
        return (dict(fr.vars), dict(self.heap), list(self.patterns))

    def restore(self, fr, s):
        fr.vars = dict(s[0])
        self.heap = dict(s[1])
        self.patterns = list(s[2])

    def join(self, g, s1, s2):
        """state: s1 under g, s2 otherwise"""
        out = []
        for d1, d2 in ((s1[0], s2[0]), (s1[1], s2[1])):
            d = {}
            for k in list(d1) + [k for k in d2 if k not in d1]:
                x, y = d1.get(k, UNDEF), d2.get(k, UNDEF)
                if (x is UNDEF) != (y is UNDEF) and isinstance(k, tuple):
                    x, y = [self.absent(k) if z is UNDEF else z
                            for z in (x, y)]
                d[k] = self.merge(g, x, y)
            out.append(d)
        pats = list(s1[2])
        for p in s2[2]:
            if p not in pats:
                pats.append(p)
        return out[0], out[1], pats

    def absent(self, k):
        """value of an attribute that was not assigned"""
        b, n = k
        if isinstance(b, T) and isinstance(n, str) and b is not M and (
                b.op != "sym" or b is sym("SELF")
                or b.args[0].startswith(("ARG:", "GIVEN:"))) and b.op != "idx" and not (
                self.owner is not None and b is self.owner.term):
            return tm.attr(b, n)
        return UNDEF

    # ---------------------------------------------------------- statements
    def block(self, body, fr):
        for s in body:
            if self.pc is FALSE:
                return
            self.stmt(s, fr)

    def stmt(self, s, fr):
        self.nodes += 1
        self.loc = (fr.module.path, s.lineno)
        m = getattr(self, "s_" + type(s).__name__, None)
        if m is None:
            self.note_unknown(f"statement {type(s).__name__}", s)
            return
        m(s, fr)

    def s_Expr(self, s, fr):
        if isinstance(s.value, ast.Constant):
            return
        if isinstance(s.value, ast.Yield):
            v = self.ev(s.value.value, fr) if s.value.value else NONE
            self.do_yield(v, fr)
            return
        if isinstance(s.value, ast.YieldFrom):
            for seg in self.iterate(self.ev(s.value.value, fr)):
                fr.yields.segs.append(Seg(
                    tuple(self.ctx[fr.yields.depth:]) + seg.q,
                    b_and(b_simplify(self.pc, fr.entry_pc), seg.g), seg.e))
            return
        if self.never_used(s.value, fr):
            return
        self.ev(s.value, fr)

    def never_used(self, e, fr):
        """an iterator that nobody asks for its elements does nothing"""
        if isinstance(e, ast.GeneratorExp):
            return True
        if not isinstance(e, ast.Call) or not isinstance(e.func, ast.Name):
            return False
        f = self.ev(e.func, fr)
        return isinstance(f, ModRef) and f.name in ITERATORS

    def do_yield(self, v, fr):
        fr.yields.segs.append(Seg(self.ctx[fr.yields.depth:],
                                  b_simplify(self.pc, fr.entry_pc), v))

    def s_Pass(self, s, fr):
        pass

    def s_Import(self, s, fr):
        for a in s.names:
            n = a.asname or a.name.split(".")[0]
            fr.vars[n] = ModRef(a.name if a.asname else n)

    def s_ImportFrom(self, s, fr):
        base = fr.module._abs(s)
        for a in s.names:
            if base in self.repo.modules:
                v = self.from_resolved(self.repo.resolve(base, a.name))
            else:
                v = self.ext(f"{base}.{a.name}")
            fr.vars[a.asname or a.name] = v

    def s_Global(self, s, fr):
        fr.globals.update(s.names)

    def s_Nonlocal(self, s, fr):
        fr.globals.update(s.names)

    def s_FunctionDef(self, s, fr):
        c = self.with_defaults(Closure(s, fr, fr.module, fr.cls), fr)
        for d in reversed(s.decorator_list):
            f = d.func if isinstance(d, ast.Call) else d
            if isinstance(f, ast.Attribute) and f.attr in \
                    PYOMO_COMPONENTS and not isinstance(
                    self.ev(f.value, fr), ModRef):
                b = self.ev(f.value, fr)
                args, kw = [], {}
                if isinstance(d, ast.Call):
                    args = [self.ev(a, fr) for a in d.args]
                    kw = {k.arg: self.ev(k.value, fr) for k in d.keywords}
                kw["rule"] = c
                self.attach(b, s.name,
                            Component(f.attr, args, kw, self.loc), fr)
                return
        fr.vars[s.name] = c

    def s_ClassDef(self, s, fr):
        fr.vars[s.name] = ClassRef(fr.module, s)
        fr.vars[s.name].frame = fr

    def s_Return(self, s, fr):
        v = self.ev(s.value, fr) if s.value is not None else NONE
        if self.pc is FALSE:
            return
        fr.returns.append((tuple(self.ctx[fr.depth0:]), self.pc, v,
                           self.snap(fr)))
        self.pc = FALSE

    def s_Raise(self, s, fr):
        if s.exc is None:
            name = "reraise"
            v = NONE
        else:
            e = s.exc
            if isinstance(e, ast.Call):
                ft = self.ev(e.func, fr)
                name = self.excname(ft)
                v = tup([self.term(self.ev(a, fr)) for a in e.args])
            else:
                ft = self.ev(e, fr)
                name = self.excname(ft)
                v = NONE
        self.emit("raise", name, v)
        self.pc = FALSE

    def excname(self, f):
        t = self.term(f)
        if t.op == "cls":
            return t.args[0]
        if t.op == "sym":
            return t.args[0].split(".")[-1].split(":")[-1]
        if t.op == "call":
            return self.excname(t.args[0])
        return tm.show(t)

    def s_Assert(self, s, fr):
        c = self.truth(self.ev(s.test, fr))
        self.emit("raise", "AssertionError", NONE, g=b_and(self.pc, b_not(c)))
        self.pc = b_and(self.pc, c)

    def s_Delete(self, s, fr):
        for t in s.targets:
            if isinstance(t, ast.Name):
                fr.vars.pop(t.id, None)
            elif isinstance(t, ast.Subscript):
                base = self.ev(t.value, fr)
                k = self.ev_slice(t.slice, fr)
                self.emit("delitem", None, (self.term(base), k))
                if isinstance(base, (DictObj, ListObj)):
                    base.segs.append(Seg((), TRUE, self.note_unknown(
                        "deletion from local container", s), k=k))
            elif isinstance(t, ast.Attribute):
                base = self.ev(t.value, fr)
                self.emit("delattr", t.attr, self.term(base))
                self.heap.pop((self.term(base), t.attr), None)

    def s_Continue(self, s, fr):
        fr.loops[-1].conts.append((self.pc, self.snap(fr)))
        self.pc = FALSE

    def s_Break(self, s, fr):
        fr.loops[-1].breaks.append((self.pc, self.snap(fr)))
        self.pc = FALSE

    def first_met(self, s, fr):
        """if key not in groups: groups[key] = []"""
        t, b = s.test, s.body
        if s.orelse or len(b) != 1 or not isinstance(
                t, ast.Compare) or len(t.ops) != 1 or not isinstance(
                t.ops[0], ast.NotIn) or not isinstance(
                b[0], ast.Assign) or len(b[0].targets) != 1 or not \
                isinstance(b[0].targets[0], ast.Subscript) or not isinstance(
                b[0].value, (ast.List, ast.Call, ast.Dict)):
            return False
        to = b[0].targets[0]
        if ast.dump(to.slice) != ast.dump(t.left) or ast.dump(
                t.comparators[0]).replace("Store", "Load") != ast.dump(
                to.value):
            return False
        d = self.ev(to.value, fr)
        if not isinstance(d, DictObj) or not self.ctx[d.depth:]:
            return False
        return self.grouped(d, self.safe_term(self.ev(t.left, fr)),
                            self.ev(b[0].value, fr)) is not None

    def first_entry(self, s, fr):
        """if key not in groups and ...: groups[key] = {k: v}
        elif k not in groups[key]: groups[key][k] = v"""
        def conds(t):
            if isinstance(t, ast.BoolOp) and isinstance(t.op, ast.And):
                return [c for x in t.values for c in conds(x)]
            return [t]

        def dump(t):
            return ast.dump(t).replace("Store()", "Load()")

        def single(b):
            b = [x for x in b if not isinstance(x, ast.Pass)]
            return b[0] if len(b) == 1 else None

        b, e = single(s.body), single(s.orelse)
        if not any(not isinstance(x, ast.Pass) for x in s.orelse):
            return self.first_wins(s, b, conds, dump, fr)
        if not isinstance(b, ast.Assign) or len(b.targets) != 1 or not \
                isinstance(b.targets[0], ast.Subscript) or not isinstance(
                b.value, ast.Dict) or len(b.value.keys) != 1 or \
                b.value.keys[0] is None or e is None:
            return False
        to = b.targets[0]
        new = ast.Compare(to.slice, [ast.NotIn()], [to.value])
        rest = [c for c in conds(s.test) if dump(c) != dump(new)]
        if len(rest) == len(conds(s.test)):
            return False
        k, v = b.value.keys[0], b.value.values[0]
        add = ast.Assign([ast.Subscript(to, k, ast.Store())], v)
        if isinstance(e, ast.If):
            known = (dump(ast.Compare(to.slice, [ast.In()], [to.value])),
                     dump(ast.Compare(k, [ast.NotIn()], [to])))
            if single(e.orelse) is not None or any(isinstance(
                    x, ast.stmt) and not isinstance(x, ast.Pass)
                    for x in e.orelse) or not all(
                    dump(c) in known for c in conds(e.test)) or rest and \
                    known[0] not in map(dump, conds(e.test)):
                return False
            e = single(e.body)
        elif rest:
            return False
        if e is None or dump(e) != dump(add):
            return False
        d = self.ev(to.value, fr)
        if not isinstance(d, DictObj) or not self.ctx[d.depth:]:
            return False
        kt = self.safe_term(self.ev(to.slice, fr))
        ids = {x[0] for x in self.ctx[d.depth:]}

        def of_key(t):
            # nothing but the key tells iterations apart
            return t is kt or not t.free & ids or all(
                of_key(x) for x in parts(t))

        def parts(t):
            out, todo = [], list(t.args)
            while todo:
                x = todo.pop()
                if isinstance(x, T):
                    out.append(x)
                elif isinstance(x, tuple):
                    todo.extend(x)
            return out or [sym("?" + t.key)] if t.op != "bv" else [t]

        def go():
            inner = self.grouped(d, kt, DictObj([], len(self.ctx)))
            if inner is None:
                raise Unsupported("entries of mappings in a mapping")
            self.setitem(inner, self.safe_term(self.ev(k, fr)),
                         self.ev(v, fr), s)

        g = TRUE
        for c in rest:
            g = b_and(g, self.truth(self.ev(c, fr)))
        if any(not all(of_key(x) for x in a.args if isinstance(x, T))
               for a in tm.b_atoms(g)):
            return False
        self.branch(g, go, lambda: None, fr)
        return True

    def first_wins(self, s, b, conds, dump, fr):
        """if key not in found and ...: found[key] = value"""
        if not isinstance(b, ast.Assign) or len(b.targets) != 1 or not \
                isinstance(b.targets[0], ast.Subscript):
            return False
        to = b.targets[0]
        new = ast.Compare(to.slice, [ast.NotIn()], [to.value])
        rest = [c for c in conds(s.test) if dump(c) != dump(new)]
        if len(rest) == len(conds(s.test)) or dump(
                to.value) in [dump(x) for c in rest for x in ast.walk(c)
                              if isinstance(x, ast.expr)]:
            return False
        d = self.ev(to.value, fr)
        if not isinstance(d, DictObj) or d.segs or d.kind != "dict" or \
                d.alias is not None:
            return False
        q = tuple(self.ctx[d.depth:])
        kt = self.safe_term(self.ev(to.slice, fr))
        if len(q) != 1 or q[0][2] != 1 or self.one_to_one(kt, q) or \
                not kt.free & {q[0][0]}:
            return False
        c = TRUE
        for x in rest:
            c = b_and(c, self.truth(self.ev(x, fr)))
        v = self.ev(b.value, fr)
        g = b_and(self.since(d), c)
        dom = self.term(ListObj("set", [Seg(q, g, kt)], d.depth))
        k = bv(fresh_id("i"), 0, "obj")
        first = self.first_such(Seg(q, g, kt), b_and(
            g, self.key_eq(kt, k)))
        d.segs.append(Seg(((k.args[0], dom, 1, "obj"),), TRUE, self.subst_v(
            v, {bv(q[0][0], 0, q[0][3]): first}), k=k))
        return True

    def s_If(self, s, fr):
        if self.first_met(s, fr) or self.first_entry(s, fr):
            return
        c = self.truth(self.ev(s.test, fr))
        if self.pc is FALSE:
            return
        self.branch(c, lambda: self.block(s.body, fr),
                    lambda: self.block(s.orelse, fr), fr)

    def s_Match(self, s, fr):
        """match -> nested if"""
        name = "match:" + fresh_id("m")
        fr.vars[name] = self.ev(s.subject, fr)

        def load():
            return ast.Name(name, ast.Load())

        def test(p):
            """(condition or None for always, captures)"""
            if isinstance(p, ast.MatchValue):
                return ast.Compare(load(), [ast.Eq()], [p.value]), []
            if isinstance(p, ast.MatchSingleton):
                return ast.Compare(load(), [ast.Is()],
                                   [ast.Constant(p.value)]), []
            if isinstance(p, ast.MatchAs):
                c, cap = (None, []) if p.pattern is None else test(p.pattern)
                return c, cap + ([p.name] if p.name else [])
            if isinstance(p, ast.MatchOr):
                cs = [test(x) for x in p.patterns]
                if any(cap for _, cap in cs):
                    raise Unsupported("match")
                if any(c is None for c, _ in cs):
                    return None, []
                return ast.BoolOp(ast.Or(), [c for c, _ in cs]), []
            raise Unsupported("match")

        orelse = []
        try:
            for c in reversed(s.cases):
                t, cap = test(c.pattern)
                body = [ast.Assign([ast.Name(n, ast.Store())], load())
                        for n in cap] + c.body
                if c.guard is not None:
                    if cap:
                        raise Unsupported("match")
                    t = c.guard if t is None else ast.BoolOp(
                        ast.And(), [t, c.guard])
                orelse = body if t is None else [ast.If(t, body, orelse)]
        except Unsupported:
            self.note_unknown("statement Match", s)
            return
        for x in orelse:
            for n in ast.walk(x):
                for a in ("lineno", "end_lineno"):
                    if not hasattr(n, a):
                        setattr(n, a, s.lineno)
                for a in ("col_offset", "end_col_offset"):
                    if not hasattr(n, a):
                        setattr(n, a, s.col_offset)
        self.block(orelse, fr)

    def branch(self, c, then, orelse, fr):
        c = b_simplify(c, self.pc)
        pc0 = self.pc
        if c is TRUE:
            return then()
        if c is FALSE:
            return orelse()
        s0 = self.snap(fr)
        self.pc = b_and(pc0, c)
        then()
        pc1, s1 = self.pc, self.snap(fr)
        self.restore(fr, s0)
        self.pc = b_and(pc0, b_not(c))
        orelse()
        pc2, s2 = self.pc, self.snap(fr)
        if pc1 is FALSE:
            st = s2
        elif pc2 is FALSE:
            st = s1
        else:
            st = self.join(c, s1, s2)
        fr.vars, self.heap, self.patterns = st[0], st[1], st[2]
        self.pc = b_or(pc1, pc2)

    def s_With(self, s, fr):
        left = []
        for i in s.items:
            v = self.ev(i.context_expr, fr)
            m = self.special(v, "__enter__")
            if m is not None:
                left.append(self.special(v, "__exit__"))
                v = self.do_call(m, [], {}, s, fr)
            if i.optional_vars is not None:
                self.assign(i.optional_vars, v, fr)
        self.block(s.body, fr)
        for m in reversed(left):
            if m is not None and self.pc is not FALSE:
                self.do_call(m, [NONE, NONE, NONE], {}, s, fr)

    def s_Try(self, s, fr):
        pc0 = self.pc
        s0 = self.snap(fr)
        names = []
        n_ret = len(fr.returns)
        for h in s.handlers:
            names.append(tm.show(self.term(self.ev(h.type, fr)))
                         if h.type else "BaseException")
        self.block(s.body, fr)
        pc1, s1 = self.pc, self.snap(fr)
        returned = fr.returns[n_ret:]
        del fr.returns[n_ret:]
        caught = FALSE
        # what can raise inside is abstracted by one atom per handler
        body_terms = self._try_key(s, fr, s0, s1, returned)
        st, pc = s1, pc1
        for h, nm in zip(s.handlers, names):
            if self.no_exc:
                break
            atom = self.failed(h, nm, body_terms)
            caught = b_or(caught, atom)
            self.restore(fr, s0)
            self.pc = b_and(pc0, atom)
            if h.name:
                fr.vars[h.name] = sym("exc:" + nm)
            self.block(h.body, fr)
            pch, sh = self.pc, self.snap(fr)
            if pch is not FALSE:
                st = sh if pc is FALSE else self.join(atom, sh, st)
                pc = b_or(b_and(pc, b_not(atom)), pch)
            else:
                pc = b_and(pc, b_not(atom))
        fr.returns[n_ret:n_ret] = [
            (c, b_and(g, b_not(caught)), v, sn) for c, g, v, sn in returned]
        fr.vars, self.heap, self.patterns = dict(st[0]), dict(st[1]), list(
            st[2])
        self.pc = pc
        if s.orelse:
            self.block(s.orelse, fr)
        if s.finalbody:
            if any(isinstance(x, ast.Return) for x in s.finalbody):
                # whatever happened before: this is returned
                del fr.returns[n_ret:]
                self.pc = pc0
            self.block(s.finalbody, fr)

    def failed(self, h, nm, terms):
        """the guard under which the handler runs"""
        if len(terms.args) == 1 and "KeyError" in nm and not any(
                isinstance(x, ast.Raise) and x.exc is not None
                for y in h.body for x in ast.walk(y)):
            t = terms.args[0]
            out = FALSE
            for g, x in t.args[0] if t.op == "cases" else ((TRUE, t),):
                if x.op == "idx" and x.args[0].op == "attr" and \
                        x.args[0].args[0].op == "sym" and \
                        x.args[0].args[0].args[0] in self.blockrefs():
                    # no such entry
                    out = b_or(out, b_and(g, b_not(lit(mk("in", tup(
                        x.args[1]) if len(x.args[1]) > 1 else x.args[1][0],
                        x.args[0])))))
                else:
                    break
            else:
                return out
        return lit(mk("exc", nm, terms))

    def _try_key(self, s, fr, s0, s1, returned=()):
        ts = []
        for _, _, v, _ in returned:
            try:
                ts.append(self.term(v))
            except Unsupported:
                pass
        for k, v in s1[0].items():
            if s0[0].get(k) is not v:
                try:
                    ts.append(self.term(v))
                except Unsupported:
                    pass
        flat = []
        while ts:
            t = ts.pop()
            if t.op == "tuple":
                ts.extend(t.args)
            elif t.op not in ("const", "bv", "closure", "sym", "cls"):
                flat.append(t)
        # what is only used on the way to another value says nothing more
        ts = [t for t in flat if not any(
            x is not t and tm.mentions(x, t) for x in flat)]
        return tup(sorted(set(ts), key=lambda t: t.key)) if ts else \
            tup([const("try")])

    s_TryStar = s_Try

    def s_Assign(self, s, fr):
        v = self.kept_iterator(s.value, self.ev(s.value, fr), fr)
        for t in s.targets:
            self.assign(t, v, fr)

    def s_AnnAssign(self, s, fr):
        if s.value is not None:
            self.assign(s.target, self.kept_iterator(
                s.value, self.ev(s.value, fr), fr), fr)

    def s_AugAssign(self, s, fr):
        rhs = self.ev(s.value, fr)
        t = s.target
        if isinstance(t, ast.Name):
            cur = self.lookup(t.id, fr)
            if isinstance(cur, T) and isinstance(rhs, (ListObj, DictObj)):
                self.emit("grown", t.id, cur)
            fr_vars = self.owner_frame(t.id, fr).vars
            fr_vars[t.id] = self.binop(s.op, cur, rhs, s, inplace=True)
        elif isinstance(t, ast.Attribute):
            base = self.ev(t.value, fr)
            cur = self.getattr(base, t.attr, fr)
            self.setattr(base, t.attr,
                         self.binop(s.op, cur, rhs, s, inplace=True), fr)
        elif isinstance(t, ast.Subscript):
            base = self.ev(t.value, fr)
            k = self.ev_slice(t.slice, fr)
            if isinstance(base, DictObj) and isinstance(s.op, ast.Add) and \
                    isinstance(rhs, ListObj) and base.factory is None:
                cur = self.subscript(base, k, s)
                if all(isinstance(x, ListObj) for x in (
                        [x for _, x in cur.items] if isinstance(cur, CasesV)
                        else [cur])):
                    self.call_method(cur, "extend", [rhs], {}, s, fr)
                    return
            if isinstance(base, DictObj) and isinstance(
                    s.op, (ast.Add, ast.Sub)):
                rt = self.term(rhs)
                if isinstance(s.op, ast.Sub):
                    rt = neg(rt)
                base.segs.append(Seg(self.ctx[base.depth:], self.since(base), rt,
                                     k=k, additive=True))
            else:
                cur = self.subscript(base, k, s)
                self.setitem(base, k, self.binop(s.op, cur, rhs, s), s)

    def owner_frame(self, name, fr):
        if name in fr.globals:
            f = fr.parent
            while f is not None:
                if name in f.vars:
                    return f
                f = f.parent
        return fr

    def assign(self, t, v, fr):
        if isinstance(t, ast.Name):
            self.owner_frame(t.id, fr).vars[t.id] = v
        elif isinstance(t, (ast.Tuple, ast.List)):
            n = len(t.elts)
            st = [i for i, e in enumerate(t.elts)
                  if isinstance(e, ast.Starred)]
            if st:
                i = st[0]
                items = self.unpack_any(v)
                if items is None and (self.unpack_counted(t, i, v, fr)
                                      or self.unpack_listed(t, i, v, fr)):
                    return
                if items is None:
                    for e in t.elts:
                        e2 = e.value if isinstance(e, ast.Starred) else e
                        self.assign(e2, self.note_unknown(
                            "starred unpack", t), fr)
                    return
                tail = n - i - 1
                for e, x in zip(t.elts[:i], items[:i]):
                    self.assign(e, x, fr)
                mid = items[i: len(items) - tail]
                self.assign(t.elts[i].value, ListObj(
                    "list", [Seg((), TRUE, x) for x in mid]), fr)
                for e, x in zip(t.elts[i + 1:], items[len(items) - tail:]):
                    self.assign(e, x, fr)
                return
            items = self.unpack(v, n)
            for e, x in zip(t.elts, items):
                self.assign(e, x, fr)
        elif isinstance(t, ast.Attribute):
            base = self.ev(t.value, fr)
            self.setattr(base, t.attr, v, fr)
        elif isinstance(t, ast.Subscript):
            base = self.ev(t.value, fr)
            if self.tables and isinstance(base, self.tables.Tabular):
                self.tables.setitem(self, base, t.slice, v, fr, t)
                return
            k = self.ev_slice(t.slice, fr)
            self.setitem(base, k, v, t)
        else:
            self.note_unknown("assignment target", t)

    def unpack_listed(self, t, i, v, fr):
        """first, *others = a list"""
        tail = len(t.elts) - i - 1
        if tail and not (isinstance(v, T) and v.op == "call"):
            return False
        if not isinstance(v, ListObj) and not tail:
            v = self._aslist("list", [v])
        for k, e in enumerate(t.elts[:i]):
            self.assign(e, self.subscript(v, const(k), t), fr)
        self.assign(t.elts[i].value, self.subscript(
            v, mk("slice", const(i), const(-tail) if tail else NONE, NONE),
            t), fr)
        for k, e in enumerate(t.elts[i + 1:]):
            self.assign(e, self.subscript(v, const(k - tail), t), fr)
        return True

    def unpack_counted(self, t, i, v, fr):
        """first, *others = PERIODS"""
        if not isinstance(v, T) or card_of(self.strip_iter(v)) is None:
            return False
        tail = len(t.elts) - i - 1
        for k, e in enumerate(t.elts[:i]):
            self.assign(e, const(k), fr)
        n = card_of(self.strip_iter(v))
        self.assign(t.elts[i].value, self.subscript(mk(
            "aslist", self.strip_iter(v)), mk(
            "slice", const(i) if i else NONE,
            const(-tail) if tail else NONE, NONE), t), fr)
        for k, e in enumerate(t.elts[i + 1:]):
            self.assign(e, add(n, const(k - tail)), fr)
        return True

    def unpack_any(self, v):
        if isinstance(v, ListObj) and all(
                not s.q and s.g is TRUE for s in v.segs):
            return [s.e for s in v.segs]
        if isinstance(v, T) and v.op == "tuple":
            return list(v.args)
        parts = v.items if isinstance(v, CasesV) else v.args[0] if isinstance(
            v, T) and v.op == "cases" else ()
        ns = {len(u) if u is not None else None
              for u in (self.unpack_any(x) for g, x in parts)}
        if len(ns) == 1 and None not in ns:
            return self.columns(v, ns.pop())
        return None

    def columns(self, v, n):
        if isinstance(v, CasesV):
            parts = [(g, self.unpack(x, n)) for g, x in v.items]
            out = []
            for k in range(n):
                cur = parts[-1][1][k]
                for g, p in reversed(parts[:-1]):
                    cur = self.merge(g, p[k], cur)
                out.append(cur)
            return out
        parts = [(g, self.unpack(x, n)) for g, x in v.args[0]]
        return [cases([(g, self.term(p[k])) for g, p in parts])
                for k in range(n)]

    def unpack(self, v, n):
        items = self.unpack_any(v)
        if items is not None and len(items) == n:
            return items
        if isinstance(v, CasesV):
            return self.columns(v, n)
        if isinstance(v, ListObj):
            return [self.list_get(v, const(k), None) for k in range(n)]
        t = self.term(v)
        if t.op == "cases":
            return self.columns(t, n)
        if t.op == "comp":
            return [self.subscript(t, const(k), None) for k in range(n)]
        if t.op == "attr" and t.args[1] in MAPPINGS:
            return [nth(t, const(k)) for k in range(n)]
        m = mapped(t)
        if m is not None:
            return [idx(m, (nth(m, const(k)),)) for k in range(n)]
        return [idx(t, (const(k),)) for k in range(n)]

    # ---------------------------------------------------------- loops
    def assigned_names(self, body):
        names = []

        def add_(n):
            if n not in names:
                names.append(n)

        def tgt(t):
            if isinstance(t, ast.Name):
                add_(t.id)
            elif isinstance(t, (ast.Tuple, ast.List)):
                for e in t.elts:
                    tgt(e)
            elif isinstance(t, ast.Starred):
                tgt(t.value)

        def walk(n):
            if isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef,
                              ast.ListComp, ast.SetComp, ast.DictComp,
                              ast.GeneratorExp)):
                if isinstance(n, (ast.FunctionDef, ast.ClassDef)):
                    add_(n.name)
                return
            if isinstance(n, ast.Assign):
                for t in n.targets:
                    tgt(t)
            elif isinstance(n, (ast.AugAssign, ast.AnnAssign)):
                tgt(n.target)
            elif isinstance(n, ast.For):
                tgt(n.target)
            elif isinstance(n, ast.With):
                for i in n.items:
                    if i.optional_vars is not None:
                        tgt(i.optional_vars)
            elif isinstance(n, ast.NamedExpr):
                tgt(n.target)
            elif isinstance(n, (ast.Import, ast.ImportFrom)):
                for a in n.names:
                    add_(a.asname or a.name.split(".")[0])
            for c in ast.iter_child_nodes(n):
                walk(c)

        for s in body:
            walk(s)
        return names

    def assigned_attrs(self, body, fr):
        """heap keys assigned in the body whose base is loop invariant"""
        keys = []
        names = set(self.assigned_names(body))
        at_once = {id(n) for n in body}
        for s in body:
            for n in ast.walk(s):
                tg = []
                if isinstance(n, ast.AugAssign):
                    tg = [n.target]
                if isinstance(n, ast.Assign) and id(n) not in at_once:
                    tg = [t for t in n.targets
                          if isinstance(t, ast.Attribute) and isinstance(
                              t.value, ast.Name) and t.value.id not in names]
                for t in tg:
                    if isinstance(t, ast.Attribute) and isinstance(
                            t.value, ast.Name):
                        b = self.lookup(t.value.id, fr, quiet=True)
                        if b is None:
                            continue
                        if isinstance(b, NewObj):
                            continue
                        try:
                            k = (self.term(b), t.attr)
                        except Unsupported:
                            continue
                        if k in self.heap and k not in keys:
                            keys.append(k)
                        elif k not in keys and isinstance(n, ast.Assign):
                            self.heap[k] = tm.attr(*k)
                            keys.append(k)
        return keys + self.object_attrs(body)

    def object_attrs(self, body):
        """attributes of helper objects that may change in the body"""
        objs = {b for b, n in self.heap
                if b.op == "sym" and b.args[0].startswith("NEW:")}
        if not objs:
            return []
        todo, names = list(body), set()
        for c in self.helpers.values():
            for x in self.family(c):
                todo += [f for f in x.node.body if isinstance(
                    f, ast.FunctionDef) and f.name != "__init__"]
        for s in todo:
            for n in ast.walk(s):
                if isinstance(n, ast.Attribute) and isinstance(
                        n.ctx, ast.Store):
                    names.add(n.attr)
        return [k for k in self.heap if k[0] in objs and k[1] in names]

    def target_names(self, t):
        return self.assigned_names([ast.Assign(targets=[t],
                                               value=ast.Constant(0))])

    def with_flag(self, s, before=()):
        """for ... else: as statements, where a variable tells whether the
        loop was left"""
        if id(s) in self.flagged:
            return self.flagged[id(s)][1]
        flag = f"<left:{s.lineno}:{s.col_offset}>"

        def name(ctx):
            return ast.Name(flag, ctx)

        class Left(ast.NodeTransformer):
            def visit_Break(self, n):
                return [ast.copy_location(ast.Assign(
                    [name(ast.Store())], ast.Constant(True)), n), n]

            def inner(self, n):
                # a break in its else part leaves the outer loop
                return ast.copy_location(type(n)(**{
                    **{f: getattr(n, f, None) for f in n._fields},
                    "orelse": [y for x in n.orelse
                               for y in listed(self.visit(x))]}), n)

            def same(self, n):
                return n

            visit_For = visit_While = inner
            visit_FunctionDef = visit_ClassDef = visit_Lambda = same

        def listed(x):
            return x if isinstance(x, list) else [x]
        body = [y for x in copy.deepcopy(list(before) + s.body)
                for y in listed(Left().visit(x))]
        if isinstance(s, ast.While):
            loop = body
        else:
            loop = ast.For(s.target, s.iter, body, [], None)
        first = ast.Assign([name(ast.Store())], ast.Constant(False))
        last = ast.If(ast.UnaryOp(ast.Not(), name(ast.Load())),
                      s.orelse or [ast.Pass()], [])
        for x in (first, last) + (() if isinstance(loop, list) else (loop,)):
            ast.copy_location(x, s)
            ast.fix_missing_locations(x)
        for x in body:
            ast.fix_missing_locations(x)
        self.flagged[id(s)] = s, (first, loop, last)
        return first, loop, last

    def breaks(self, body):
        """the statements that leave a loop with this body"""
        out, todo = [], list(body)
        while todo:
            n = todo.pop()
            if isinstance(n, ast.Break):
                out.append(n)
            elif isinstance(n, (ast.For, ast.While)):
                todo += n.orelse
            elif not isinstance(n, (ast.FunctionDef, ast.Lambda,
                                    ast.ClassDef)):
                todo += ast.iter_child_nodes(n)
        return out

    def s_For(self, s, fr):
        if s.orelse and self.breaks(s.body):
            self.block(self.with_flag(s), fr)
            return
        itv = self.ev(s.iter, fr)
        if self.pc is FALSE:
            return
        n = len(s.target.elts) if isinstance(
            s.target, (ast.Tuple, ast.List)) else self.unpacked_as(s)
        segs = self.iterate(itv, n)
        self.run_loop(segs, s.target, s.body, fr, s)
        if s.orelse and self.pc is not FALSE:
            self.block(s.orelse, fr)

    def unpacked_as(self, s):
        """arity of a loop variable that is taken apart in the body"""
        if isinstance(s.target, ast.Name):
            for b in s.body:
                for x in ast.walk(b):
                    if isinstance(x, ast.Assign) and isinstance(
                            x.value, ast.Name) and x.value.id == \
                            s.target.id and isinstance(
                            x.targets[0], (ast.Tuple, ast.List)) and \
                            not any(isinstance(y, ast.Starred)
                                    for y in x.targets[0].elts):
                        return len(x.targets[0].elts)
        return None

    def while_range(self, s):
        """`while v < n and c: ...; v += 1` -> (v, n, body, c or None)"""
        t = s.test
        more = None
        if isinstance(t, ast.BoolOp) and isinstance(t.op, ast.And):
            t, more = t.values[0], t.values[1:]
            more = more[0] if len(more) == 1 else ast.copy_location(
                ast.BoolOp(ast.And(), more), s)
        if not (isinstance(t, ast.Compare) and len(t.ops) == 1) or s.orelse:
            return None
        a, op, b = t.left, t.ops[0], t.comparators[0]
        if isinstance(op, (ast.Gt, ast.GtE)):
            a, b = b, a
        elif not isinstance(op, (ast.Lt, ast.LtE, ast.NotEq)):
            return None
        if not isinstance(a, ast.Name) or not s.body:
            return None
        if isinstance(op, (ast.LtE, ast.GtE)):
            b = ast.copy_location(ast.BinOp(b, ast.Add(), ast.Constant(1)),
                                  b)
            ast.fix_missing_locations(b)

        def counts(inc):
            one = None
            if isinstance(inc, ast.AugAssign) and isinstance(
                    inc.op, ast.Add):
                one, tgt = inc.value, inc.target
            elif isinstance(inc, ast.Assign) and isinstance(
                    inc.value, ast.BinOp) and isinstance(
                    inc.value.op, ast.Add):
                tgt = inc.targets[0]
                x, y = inc.value.left, inc.value.right
                if isinstance(x, ast.Name):
                    one = y if x.id == a.id else None
                elif isinstance(y, ast.Name):
                    one = x if y.id == a.id else None
            return isinstance(one, ast.Constant) and one.value == 1 and \
                isinstance(tgt, ast.Name) and tgt.id == a.id
        at = [i for i, x in enumerate(s.body) if counts(x)]
        if len(at) != 1:
            return None
        at, = at
        last = at == len(s.body) - 1
        body = s.body[:at] + s.body[at + 1:]
        if not last and (more is not None or self.breaks(body)):
            return None
        st = set(self.assigned_names(body))
        if a.id in st or st & {x.id for x in ast.walk(b)
                               if isinstance(x, ast.Name)}:
            return None

        def skips(n):
            if isinstance(n, ast.Continue):
                return True
            if isinstance(n, (ast.For, ast.While, ast.FunctionDef)):
                return False
            return any(skips(c) for c in ast.iter_child_nodes(n))
        if any(skips(x) for x in s.body[:at]):
            return None
        return a.id, b, body if last else s.body, more

    def worked_off(self, s):
        """`while rest: x = rest.pop(); ...` -> the same as for-loop"""
        t = s.test
        if isinstance(t, ast.Compare) and len(t.ops) == 1 and isinstance(
                t.ops[0], (ast.Gt, ast.NotEq)) and isinstance(
                t.comparators[0], ast.Constant) and \
                t.comparators[0].value == 0 and isinstance(t.left, ast.Call):
            t = t.left
        if isinstance(t, ast.Call) and isinstance(t.func, ast.Name) and \
                t.func.id == "len" and len(t.args) == 1:
            t = t.args[0]
        if not isinstance(t, ast.Name) or not s.body:
            return None
        a, rest = s.body[0], s.body[1:]
        if not (isinstance(a, ast.Assign) and len(a.targets) == 1
                and isinstance(a.value, ast.Call)
                and isinstance(a.value.func, ast.Attribute)
                and isinstance(a.value.func.value, ast.Name)
                and a.value.func.value.id == t.id
                and not a.value.keywords):
            return None
        f, args = a.value.func.attr, [
            x.value if isinstance(x, ast.Constant) else None
            for x in a.value.args]
        if f == "popleft" and not args or f == "pop" and args == [0]:
            it = ast.Name(t.id, ast.Load())
        elif f == "pop" and not args:
            it = ast.Call(ast.Name("reversed", ast.Load()),
                          [ast.Name(t.id, ast.Load())], [])
        elif f == "popitem" and not args:
            it = ast.Call(ast.Name("reversed", ast.Load()), [ast.Call(
                ast.Attribute(ast.Name(t.id, ast.Load()), "items",
                              ast.Load()), [], [])], [])
        else:
            return None
        if any(isinstance(x, ast.Name) and x.id == t.id
               for b in rest + [a.targets[0]] for x in ast.walk(b)) or \
                self.breaks(rest):
            return None
        loop = ast.For(a.targets[0], it, rest or [ast.Pass()], s.orelse)
        end = ast.Expr(ast.Call(ast.Attribute(
            ast.Name(t.id, ast.Load()), "clear", ast.Load()), [], []))
        for x in loop, end:
            ast.copy_location(x, s)
            ast.fix_missing_locations(x)
        return loop, end

    def s_While(self, s, fr):
        w = self.worked_off(s)
        if w is not None:
            if id(s) not in self.flagged:
                self.flagged[id(s)] = s, w
            v = fr.vars.get(s.body[0].value.func.value.id)
            loop, end = self.flagged[id(s)][1]
            whole = isinstance(v, DictObj) and v.alias is None and \
                len(self.ctx) == v.depth and self.since(v) is TRUE or \
                isinstance(v, ListObj) and v.alias is None and \
                v.kind != "override" and len(self.ctx) == v.depth and \
                self.pc is v.pc0
            if whole or isinstance(v, ListObj) or \
                    isinstance(v, T) and v.op == "aslist":
                self.stmt(loop, fr)
                if whole:
                    # nothing is left, where the loop comes to its end
                    v.segs, v.order = [], ""
                elif self.pc is not FALSE:
                    self.stmt(end, fr)
                return
        w = self.while_range(s)
        if w is not None:
            v, n, body, more = w
            tgt = ast.copy_location(ast.Name(v, ast.Store()), s)
            start = self.ev(ast.copy_location(ast.Name(v, ast.Load()), s),
                            fr)
            stop = self.ev(n, fr)
            r = self.b_range([start, stop], {}, s)
            start, stop = self.safe_term(start), self.safe_term(stop)

            def through():
                if self.pc is not FALSE:
                    d = tm._linear_int(sub(stop, start))
                    lo = None if d is None else tm._bounds(*d)[0]
                    self.assign(tgt, stop if start is ZERO or (
                        lo is not None and lo >= 0) else call(
                        sym("max"), [start, stop]), fr)
            if more is None and not self.breaks(body):
                self.run_loop(self.iterate(r), tgt, body, fr, s)
                through()
                return
            ends = [] if more is None else [ast.fix_missing_locations(
                ast.copy_location(ast.If(ast.UnaryOp(
                    ast.Not(), more), [ast.copy_location(
                        ast.Break(), s)], []), s))]
            first, body, last = self.with_flag(ast.copy_location(ast.While(
                s.test, body, []), s) if id(s) not in self.flagged else s,
                ends)
            self.block([first], fr)
            self.run_loop(self.iterate(r), tgt, body, fr, s)
            if self.pc is not FALSE:
                self.branch(self.truth(self.ev(last.test, fr)), through,
                            lambda: None, fr)
            return
        names = self.assigned_names(s.body)
        self.note_unknown("while loop", s)
        for n in names:
            if n in fr.vars:
                fr.vars[n] = self.note_unknown("while loop variable", s)

    def run_loop(self, segs, target, body, fr, node):
        breaks = []
        for seg in segs:
            if self.pc is FALSE:
                break
            if not seg.q:
                rec = LoopRec()
                fr.loops.append(rec)

                def one(seg=seg):
                    self.assign(target, seg.e, fr)
                    self.block(body, fr)
                    for g, st in rec.conts:
                        self.join_in(g, st, fr)

                if seg.g is TRUE:
                    one()
                else:
                    self.branch(seg.g, one, lambda: None, fr)
                fr.loops.pop()
                breaks += rec.breaks
            else:
                self.sym_loop(seg, target, body, fr, node)
        for g, st in breaks:
            self.join_in(g, st, fr)

    def join_in(self, g, st, fr):
        """join a state that arrives under absolute guard g"""
        if self.pc is FALSE:
            fr.vars, self.heap, self.patterns = (
                dict(st[0]), dict(st[1]), list(st[2]))
            self.pc = g
        else:
            cur = self.snap(fr)
            rel = self.rel_guard(g, self.pc)
            j = self.join(rel, st, cur)
            fr.vars, self.heap, self.patterns = j
            self.pc = b_or(self.pc, g)

    def rel_guard(self, g, other):
        """a small guard that separates g from `other` (they are disjoint)"""
        u = b_or(g, other)
        return b_simplify(g, u)

    def sym_loop(self, seg, target, body, fr, node):
        names = self.assigned_names(body)
        tnames = self.target_names(target)
        carried = [n for n in names if n not in tnames
                   and self.owner_frame(n, fr).vars.get(n) is not None
                   and n in self.owner_frame(n, fr).vars]
        attrs = self.assigned_attrs(body, fr)
        init, cs = {}, {}
        for n in carried:
            v0 = self.owner_frame(n, fr).vars[n]
            init[n] = v0
        for k in attrs:
            init[k] = self.heap[k]
        uid = fresh_id("c")
        for j, n in enumerate(list(init)):
            v0 = init[n]
            if isinstance(v0, ModRef):
                v0 = init[n] = self.term(v0)
            if isinstance(v0, (ListObj, DictObj, Closure, ClassRef,
                               ObjRef, CompRef)):
                continue
            cs[n] = sym(f"carry:{uid}:{j}")
            self._setname(n, cs[n], fr)
        pc0 = self.pc
        heap0 = dict(self.heap)
        depth0 = len(self.ctx)
        if seg.order != "":
            self.turned.append((depth0, seg.order))
        self.ctx.extend(seg.q)
        self.pc = b_and(pc0, seg.g)
        pcin = self.pc
        n_eff = len(self.effects)
        n_ret = len(fr.returns)
        n_pat = len(self.patterns)
        n_look = len(self.lookups)
        rec = LoopRec()
        fr.loops.append(rec)
        filling, self.filling = self.filling, self.filling + \
            self.filled(body, fr)
        log0 = self.seglog
        self.seglog = []
        self.assign(target, seg.e, fr)
        self.block(body, fr)
        made, self.seglog = self.seglog, log0
        if log0 is not None:
            log0.extend(made)
        for g, st in rec.conts:
            self.join_in(g, st, fr)
        fr.loops.pop()
        self.filling = filling
        endpc = self.pc
        end = self.snap(fr)
        for loc in self.carried_lookups(n_look, seg, depth0):
            self.unknown.append((loc[0], loc[1], "statement: look-up of what "
                                 "earlier iterations stored"))
        if not depth0:
            del self.lookups[n_look:]
        del self.ctx[depth0:]
        if seg.order != "":
            self.turned.pop()
        self.pc = pc0
        # ---------------- summarise
        if self.pc is FALSE and not rec.breaks:
            pass
        upd = {}
        for n in cs:
            v = end[1].get(n) if isinstance(n, tuple) else \
                end[0].get(n, UNDEF)
            try:
                upd[n] = self.term(v) if v is not None else UNDEF
            except Unsupported:
                upd[n] = self.note_unknown("loop value", node)
        brk = FALSE
        for g, _ in rec.breaks:
            brk = b_or(brk, b_simplify(g, pcin))
        solved = {}
        found = None
        if rec.breaks and len(fr.returns) == n_ret:
            found = self.search(cs, upd, init, seg, brk, rec, pcin,
                                tnames + [n for n in names if n not in init],
                                end, fr)
        if not rec.breaks:
            allc = set(cs.values())
            for n, L in cs.items():
                u = upd[n]
                if u is L:
                    solved[n] = init[n]
                    continue
                r = self.solve_carry(n, L, u, self.term(init[n]), seg, allc)
                if r is not None:
                    solved[n] = r
        shift = {} if seg.order != "" else self.shifted(
            cs, solved, upd, init, seg, rec)
        unsolved = [n for n in cs if n not in solved]
        fixes = {}
        if found is not None:
            fixes = found[0]
        elif unsolved or rec.breaks:
            fixes = self.make_fix(unsolved if not rec.breaks else list(cs),
                                  cs, upd, init, seg, brk, rec, pcin,
                                  tnames + [n for n in names
                                            if n not in init], end, fr)
        # replace carry symbols in effects recorded inside the loop
        m = {}
        for n, L in cs.items():
            if n in shift:
                m[L] = shift[n]
            elif found is not None:
                m[L] = found[1][L]
            elif n in fixes:
                m[L] = mk("prev", fixes[n],
                          tup([bv(i, 0, so) for i, _, _, so in seg.q]))
            elif n in solved:
                u = upd[n]
                if u is L:
                    if isinstance(init[n], T):
                        m[L] = init[n]
                    continue
                m[L] = self.so_far(n, L, u, init, seg, set(
                    cs.values())) if seg.order == "" else None
                if m[L] is None:
                    m[L] = mk("prefix", self.term(solved[n]) if seg.order
                              == "" else mk("resorted", str(seg.order),
                                            self.term(solved[n])),
                              tup([bv(i, 0, so) for i, _, _, so in seg.q]))
        if m:
            for e in self.effects[n_eff:]:
                e.g = subst(e.g, m)
                e.v = self.subst_v(e.v, m)
            fr.returns[n_ret:] = [
                (q, subst(g, m), self.subst_v(v, m), st)
                for q, g, v, st in fr.returns[n_ret:]]
            ids = {q[0] for q in seg.q}
            for x in made:
                if ids & {q[0] for q in x.q}:
                    y = self._subst_seg(x, m)
                    x.q, x.g, x.e, x.k = y.q, y.g, y.e, y.k
        self.only_before(seg, subst(brk, m), n_eff, n_ret, made, depth0, fr,
                         pcin)
        # variables after the loop
        ids = {q[0] for q in seg.q}
        for n in names + tnames:
            if n in init and n in cs:
                continue
            v = end[0].get(n)
            if v is None:
                continue
            if n in fixes:
                fr.vars[n] = fixes[n]
                continue
            fr.vars[n] = self.last_value(v, ids, seg, m)
        for n in cs:
            if n in fixes:
                self._setname(n, fixes[n], fr)
            else:
                self._setname(n, solved[n], fr)
        # heap stores inside the loop become patterns / quantified
        for k, v in list(self.heap.items()):
            if k in cs:
                continue
            if heap0.get(k) is v:
                continue
            base, name = k
            vt = v if not isinstance(v, T) else subst(v, m)
            fr_ids = base.free & ids
            if fr_ids:
                self.patterns.append((name, seg.q, b_simplify(pcin, pc0),
                                      base, vt))
                if k in heap0:
                    self.heap[k] = heap0[k]
                else:
                    del self.heap[k]
            else:
                self.heap[k] = self.last_value(v, ids, seg, m)
        if len(self.patterns) > n_pat:
            self.patterns[n_pat:] = [
                p for p in self.patterns[n_pat:]]
        # exceptional exits: returns inside the loop
        if endpc is FALSE and not rec.breaks and len(
                fr.returns) == n_ret and not rec.conts:
            # body always raises: loop completes only if it is empty
            self.pc = b_and(pc0, b_not(self.exists(seg.q, b_simplify(
                pcin, pc0))))
        gret = FALSE
        for q, g, v, st in fr.returns[n_ret:]:
            gret = b_or(gret, self.exists(seg.q, b_simplify(g, pc0)))
        for e in self.effects[n_eff:]:
            if e.kind == "raise" and len(e.q) >= len(seg.q) + depth0:
                gr = self.exists(e.q[depth0:], b_simplify(e.g, pc0))
                self.pc = b_and(self.pc, b_not(gr))
        if gret is not FALSE:
            self.pc = b_and(self.pc, b_not(gret))

    def _setname(self, n, v, fr):
        if isinstance(n, tuple):
            self.heap[n] = v
        else:
            self.owner_frame(n, fr).vars[n] = v

    def subst_v(self, v, m):
        if isinstance(v, T):
            return subst(v, m)
        if isinstance(v, tuple):
            return tuple(self.subst_v(x, m) for x in v)
        if isinstance(v, list):
            return [self.subst_v(x, m) for x in v]
        if isinstance(v, ListObj):
            return ordered(ListObj(
                v.kind, [self._subst_seg(s, m) for s in v.segs], v.depth),
                v.order)
        if isinstance(v, DictObj):
            return DictObj([self._subst_seg(s, m) for s in v.segs], v.depth,
                           v.kind)
        if isinstance(v, CasesV):
            return CasesV([(subst(g, m), self.subst_v(x, m))
                           for g, x in v.items])
        if isinstance(v, Closure):
            return v.mapped(lambda x: self.subst_v(x, m))
        return v

    def _subst_seg(self, s, m):
        return Seg([(i, subst(d, m), a, so) for i, d, a, so in s.q],
                   subst(s.g, m), self.subst_v(s.e, m),
                   self.subst_v(s.k, m) if s.k is not None else None,
                   s.additive)

    def last_value(self, v, ids, seg, m):
        if isinstance(v, (Closure, ClassRef, ModRef, CompRef)):
            return v
        if isinstance(v, (ListObj, DictObj)):
            return v
        try:
            t = subst(self.term(v), m)
        except Unsupported:
            return v
        if not (t.free & ids):
            return t
        if len(seg.q) == 1 and seg.g is TRUE:
            (i, dom, ar, so), = seg.q
            c = card_of(dom)
            el = nth(dom, const(-1)) if c is None else sub(c, ONE)
            return subst(t, {bv(i, k, so): el if ar == 1 else idx(
                el, (const(k),)) for k in range(ar)})
        q, mm = tm.canon_binders(tuple(seg.q), [t], [seg.g])
        return mk("last", mk("comp", "seq",
                             ((q, rename_ids(seg.g, mm),
                               rename_ids(t, mm)),)))

    def has_sym(self, t, syms):
        seen = set()

        def rec(x):
            if x in seen:
                return False
            seen.add(x)
            if x in syms:
                return True
            return any(rec(a) for a in tm._walk_args(x.args))
        return rec(t)

    def shifted(self, cs, solved, upd, init, seg, rec):
        """values that are carried from one iteration to the next only"""
        out = {}
        if rec.breaks or len(seg.q) != 1:
            return out
        f = self.first_of(seg.q[0], seg.g)
        if f is None:
            return out
        i, dom, ar, so = seg.q[0]
        x = bv(i, 0, so)
        allc = set(cs.values())
        for n, L in cs.items():
            u = upd[n]
            if n in solved or u is UNDEF or self.has_sym(u, allc) or \
                    init[n] is UNDEF:
                continue
            try:
                v0 = self.term(init[n])
            except Unsupported:
                continue
            out[n] = ite(a_eq(x, const(f)), v0,
                         subst(u, {x: sub(x, ONE)}))
            c = card_of(dom)
            if c is not None and seg.g is TRUE:
                solved[n] = subst(u, {x: sub(c, ONE)})
            elif self.has_sym(u, {x}):
                solved[n] = self.last_value(u, {i}, seg, {})
            else:
                solved[n] = ite(self.exists(seg.q, seg.g), u, v0)
        return out

    def stopped(self, seg, stop):
        """an earlier element satisfied the condition"""
        q = tuple(seg.q)
        if len(q) == 1 and q[0][2] == 1 and card_of(q[0][1]) is not None:
            i, dom, ar, so = q[0]
            x, y = bv(i, 0, so), bv(fresh_id("i"), 0, so)
            return self.exists(((y.args[0], dom, ar, so),), b_and(
                subst(b_and(seg.g, stop), {x: y}),
                tm.a_lt0(as_poly(sub(y, x)))))
        q2, mm = tm.canon_binders(q, [stop], [seg.g])
        return tm.lit(mk("stopped", mk("comp", "seq", ((
            q2, rename_ids(seg.g, mm), rename_ids(stop, mm)),)),
            tup([bv(i, k, so) for i, _, ar, so in q for k in range(ar)])))

    def only_before(self, seg, brk, n_eff, n_ret, made, depth0, fr, pcin):
        """what a loop does it does for the elements until it ends"""
        stops = [brk] if brk is not FALSE else []
        rets = fr.returns[n_ret:]
        k = len(fr.returns) - n_ret
        for q, g, v, st in rets:
            # the quantifiers of inner loops
            inner = [x for x in q if x[0] not in {
                y[0] for y in self.ctx} and x[0] not in {
                y[0] for y in seg.q}]
            stops.append(self.exists(inner, b_simplify(g, pcin)))
        if not stops:
            return
        ids = {y[0] for y in seg.q}
        segs = [x for x in made if ids & {y[0] for y in x.q}]
        effs = [e for e in self.effects[n_eff:]
                if ids & {y[0] for y in e.q}]
        if k < 2 and not (k and brk is not FALSE) and not effs and not segs:
            return
        go = b_not(self.stopped(seg, b_or(*stops)))
        for e in effs:
            e.g = b_and(e.g, go)
        for x in segs:
            x.g = b_and(x.g, go)
        fr.returns[n_ret:] = [(q, b_and(g, go), v, st)
                              for q, g, v, st in fr.returns[n_ret:]]

    def front_of(self, parts):
        """the first element of parts that may be empty"""
        r = None
        for q, g, e in reversed(parts):
            if not q:
                x = e
            else:
                x = self.nth_found((q, g, e), ZERO)
                if x is None:
                    return None
            r = x if r is None else ite(self.exists(q, g), x, r)
        return r

    def nth_found(self, part, k):
        q, g, e = part
        if k is ZERO and len(q) == 1 and q[0][2] == 1 and g is not TRUE:
            i, dom, ar, so = q[0]
            return subst(e, {bv(i, 0, so): self.first_such(
                Seg(q, TRUE, None), g)})
        if len(q) == 2 and g is TRUE and all(x[2] == 1 for x in q):
            # kth of [(p, r) for p in .. for r in range(n(p))]
            part = self.refresh(Seg(q, g, e))
            q, e = part.q, part.e
            (i, dom, _, so), (j, rng, _, so2) = q
            if j in dom.free:
                (i, dom, _, so), (j, rng, _, so2) = q[::-1]
            if card_of(dom) is None or (k.free & {i, j}):
                return None
            if rng.op == "range" and len(rng.args) == 1:
                n = rng.args[0]
            elif rng.op == "idx":
                n = call(sym("len"), [rng])
            else:
                return None
            x, y = bv(i, 0, so), bv(fresh_id("i"), 0, so)
            before = summation(((y.args[0], dom, 1, so),), tm.a_lt0(
                as_poly(sub(y, x))), subst(n, {x: y}))
            at = self.first_such(
                Seg(((i, dom, 1, so),), TRUE, None),
                tm.a_lt0(as_poly(sub(sub(k, before), n))))
            l = sub(k, before)
            if rng.op == "idx":
                l = idx(rng, (l,))
            return subst(subst(e, {bv(j, 0, so2): l}), {x: at})
        return None

    def first_such(self, seg, g):
        """the first element that satisfies the condition"""
        (i, dom, ar, so), = seg.q
        k = compared_node(seg.q, g)
        if main_flow(k) and g.args[1] is TRUE and g.args[0].op == "eq0":
            return k        # one of the outputs
        q, mm = tm.canon_binders(in_order(seg.order, seg.q), [], [g])
        return mk("first", mk("comp", "seq", (
            (q, TRUE, rename_ids(g, mm)),)))

    def search(self, cs, upd, init, seg, brk, rec, pcin, extra, end, fr):
        """({name: value after the loop}, {carried: value so far}) of a loop
        that ends at the first element with a condition"""
        if len(seg.q) != 1 or seg.q[0][2] != 1:
            return None
        i, dom, ar, so = seg.q[0]
        allc = set(cs.values())
        m, full = {}, {}
        for n, L in cs.items():
            if upd[n] is L:
                m[L] = full[n] = init[n]
                if not isinstance(init[n], T):
                    return None
                continue
            if upd[n] is UNDEF or init[n] is UNDEF:
                return None
            v0 = self.term(init[n])
            m[L] = self.so_far(n, L, upd[n], init, seg, allc)
            full[n] = self.solve_carry(n, L, upd[n], v0, seg, allc)
            if m[L] is None or full[n] is None:
                return None
            full[n] = self.term(full[n])
        stop = b_and(seg.g, subst(brk, m))
        ex = self.exists(seg.q, stop)
        at = {bv(i, 0, so): self.first_such(seg, stop)}
        out = {}
        for n in list(cs) + extra:
            if isinstance(n, tuple):
                last = full[n]
            else:
                v = end[0].get(n)
                if n in cs:
                    last = full[n]
                elif v is None or isinstance(v, (
                        Closure, ClassRef, ModRef, ListObj, DictObj, CompRef,
                        ObjRef, CasesV)):
                    continue
                else:
                    last = self.last_value(v, {i}, seg, m)
            cur = None
            for g, st in rec.breaks:
                x = st[1].get(n) if isinstance(n, tuple) else st[0].get(n)
                x = self.term(UNDEF if x is None else x)
                cur = x if cur is None else ite(b_simplify(g, pcin), x, cur)
            out[n] = ite(ex, subst(subst(cur, m), at), last)
        return out, m

    def so_far(self, n, L, u, init, seg, allc):
        """the value after the elements before the current one (elements
        of a counted set, in ascending order)"""
        if len(seg.q) != 1 or seg.q[0][2] != 1 or card_of(
                seg.q[0][1]) is None:
            return None
        i, dom, ar, so = seg.q[0]
        j = fresh_id("i")
        x, y = bv(i, 0, so), bv(j, 0, so)
        r = self.solve_carry(
            n, L, subst(u, {x: y}), self.term(init[n]),
            Seg([(j, dom, ar, so)],
                b_and(subst(seg.g, {x: y}), tm.a_lt0(as_poly(sub(y, x)))),
                None), allc)
        return None if r is None else self.term(r)

    def solve_carry(self, n, L, u, v0, seg, allc):
        try:
            if u.op in ("poly", "call", "idx", "attr", "const", "bv",
                        "cases", "recip", "pow") or u is L:
                d = sub(u, L)
                if not self.has_sym(d, allc):
                    return add(v0, summation(seg.q, seg.g, d))
        except Exception:
            pass
        if isinstance(v0, T) and v0.op != "cases":
            d = subst(u, {L: ONE})
            if mul(L, d) is u and not self.has_sym(d, allc):
                return mul(v0, self.prod(ListObj("list", [
                    Seg(seg.q, seg.g, d)])))
        if is_guard(u) or u in (PYTRUE, PYFALSE) or u.op in ("cases",
                                                            "relcases"):
            gu = a_truthy(u)
            gl = a_truthy(L)
            atoms = [a for a in tm.b_atoms(gl)]
            if len(atoms) == 1 and v0 in (PYTRUE, PYFALSE):
                a = atoms[0]
                hi = tm.b_restrict(gu, a, True)
                lo = tm.b_restrict(gu, a, False)
                if not self.has_sym(hi, allc) and not self.has_sym(lo, allc):
                    if hi is TRUE:     # L or lo
                        return b_or(a_truthy(v0), self.exists(
                            seg.q, b_and(seg.g, lo)))
                    if lo is FALSE:    # L and hi
                        return b_and(a_truthy(v0), b_not(self.exists(
                            seg.q, b_and(seg.g, b_not(hi)))))
        if u.op == "cases" and len(seg.q) == 1 and seg.q[0][2] == 1:
            # the value of the last element that sets one
            new = [(g, v) for g, v in u.args[0] if v is not L]
            hit = b_or(*[g for g, v in new])
            if len(new) == len(u.args[0]) or any(
                    self.has_sym(x, allc) for gv in new for x in gv):
                return None
            hit = b_and(seg.g, hit)
            (i, dom, ar, so), = seg.q
            el = self.last_such(seg, hit)
            v = cases([(g, v) for g, v in new])
            return ite(self.exists(seg.q, hit),
                       subst(v, {bv(i, 0, so): el}), v0)
        return None

    def last_such(self, seg, g):
        (i, dom, ar, so), = seg.q
        x = bv(i, 0, so)
        if compared_node(seg.q, g) is not None:
            # the node itself, or the other one of two
            return self.first_such(seg, g)
        q, mm = tm.canon_binders(in_order(seg.order, seg.q), [], [g])
        return mk("last", mk("comp", "seq", (
            (q, TRUE, rename_ids(g, mm)),)))

    def make_fix(self, want, cs, upd, init, seg, brk, rec, pcin, extra, end,
                 fr):
        """recurrence terms for loop carried state without closed form"""
        vals = {}
        brkv = {}
        state = dict(cs)
        if rec.breaks:
            for n in extra:
                v = end[0].get(n)
                if v is None:
                    continue
                if isinstance(v, (Closure, ClassRef, ModRef, ListObj,
                                  DictObj, CompRef, ObjRef, CasesV)):
                    continue
                state.setdefault(n, None)
        for n in state:
            if isinstance(n, tuple):
                vals[n] = upd.get(n)
            elif n in upd:
                vals[n] = upd[n]
            else:
                vals[n] = self.term(end[0][n])
            cur = None
            for g, st in rec.breaks:
                x = st[1].get(n) if isinstance(n, tuple) else st[0].get(n)
                if x is None:
                    x = UNDEF
                xt = self.term(x)
                cur = xt if cur is None else ite(b_simplify(g, pcin), xt, cur)
            brkv[n] = cur if cur is not None else UNDEF
        csyms = {L: n for n, L in cs.items()}

        def deps(n):
            out = set()
            todo = [vals[n], brkv[n], brk]
            seen = set()
            while todo:
                t = todo.pop()
                if t in seen:
                    continue
                seen.add(t)
                if t in csyms:
                    out.add(csyms[t])
                todo.extend(tm._walk_args(t.args))
            return out

        res = {}
        for n in state:
            if n in cs and n not in want:
                continue
            clo, todo = [], [n]
            while todo:
                x = todo.pop()
                if x in clo:
                    continue
                clo.append(x)
                todo.extend(d for d in deps(x) if d in vals)
            clo = [c for c in clo if c == n or c in cs]
            mask = {cs[c]: sym("carry?") for c in clo if c in cs}
            rest = sorted((c for c in clo if c != n), key=lambda c: (
                self.term(init[c]).key, subst(vals[c], mask).key))
            order = [n] + rest
            ren = {cs[c]: sym(f"carry#{j}") for j, c in enumerate(order)
                   if c in cs}
            items = []
            for c in order:
                i0 = self.term(init[c]) if c in init else UNDEF
                if c in cs and not number_like(i0) and any(
                        arith_use(v, cs[c]) for v in vals.values()):
                    i0 = UNDEF      # never a summand: overwritten first
                vc = vals[c]
                if i0 is UNDEF and vc.op == "cases":
                    vc = cases([(g, v if number_like(v) else cs[c])
                                for g, v in vc.args[0]])
                items.append((i0, subst(vc, ren), subst(brkv[c], ren)))
            b2 = subst(brk, ren)
            prim = [x for it in items for x in it] + [b2]
            q, mm = tm.canon_binders(in_order(seg.order, seg.q), prim,
                                     [seg.g])
            items = tuple(tuple(rename_ids(x, mm) for x in it)
                          for it in items)
            res[n] = mk("fix", "loop", q, rename_ids(seg.g, mm), items,
                        rename_ids(b2, mm))
        return res

    # ---------------------------------------------------------- names
    def lookup(self, name, fr, quiet=False):
        f = fr
        while f is not None:
            if name in f.vars:
                return f.vars[name]
            f = f.parent
        r = self.global_name(name, fr.module)
        if r is None and fr.module.name.startswith("spec."):
            if name in SPEC_NAMES:
                return sym("spec:" + name)
            if name == "M":
                return self.model_value()
        if r is None and not quiet:
            if name in BUILTINS:
                return ModRef("builtins." + name)
            return self.ext("builtins." + name)
        return r

    def global_name(self, name, module):
        if name in module.defs:
            return self.from_resolved(self.repo.resolve(module.name, name))
        return None

    def from_resolved(self, r):
        if r[0] == "def":
            if isinstance(r[2], ast.ClassDef):
                return ClassRef(r[1], r[2])
            return Closure(r[2], None, r[1])
        if r[0] == "expr":
            key = (r[1].name, id(r[2]))
            if key not in self.modframes:
                self.modframes[key] = UNDEF
                fr = Frame(r[1], fn="<module>")
                fr.depth0, fr.entry_pc = 0, TRUE
                pc, ctx, loc = self.pc, self.ctx, self.loc
                self.pc, self.ctx = TRUE, []
                try:
                    names = [n for n, d in r[1].defs.items()
                             if isinstance(d, tuple) and d[0] == "expr" and
                             d[1] is r[2]]
                    if any(outlive.name_kept(self.repo, r[1], n, r[2])
                           for n in names):
                        self.modframes[key] = sym(f"kept:{names[0]}")
                    else:
                        self.modframes[key] = self.ev(r[2], fr)
                finally:
                    self.pc, self.ctx, self.loc = pc, ctx, loc
            return self.modframes[key]
        if r[0] == "module":
            return ModRef(r[1])
        return self.ext(r[1])

    def ext(self, dotted):
        if dotted.startswith("pyomo."):
            last = dotted.split(".")[-1]
            if last in PYOMO_COMPONENTS or last in DOMAINS \
                    or last[0].isupper() or last in (
                        "minimize", "maximize", "summation", "quicksum",
                        "value", "sum_product", "inequality"):
                return ModRef("pyomo:" + last)
        if dotted in ("numpy.inf", "math.inf", "numpy.Inf"):
            return const(float("inf"))
        return ModRef(dotted)

    # ---------------------------------------------------------- attributes
    def class_lookup(self, cls, name, seen=()):
        """-> (kind, ClassRef, node) through the MRO inside the repo"""
        if cls is None or cls.name in seen:
            return None
        for s in cls.node.body:
            if isinstance(s, ast.FunctionDef) and s.name == name:
                return ("fn", cls, s)
            if isinstance(s, ast.Assign):
                for t in s.targets:
                    if isinstance(t, ast.Name) and t.id == name:
                        return ("expr", cls, s.value)
            if isinstance(s, ast.AnnAssign) and isinstance(
                    s.target, ast.Name) and s.target.id == name and s.value:
                return ("expr", cls, s.value)
        for b in self.bases(cls):
            r = self.class_lookup(b, name, seen + (cls.name,))
            if r:
                return r
        return None

    def bases(self, cls):
        out = []
        fr = Frame(cls.module, parent=cls.frame)
        fr.depth0, fr.entry_pc = 0, TRUE
        for b in cls.node.bases:
            v = self.ev(b, fr)
            if isinstance(v, ClassRef):
                out.append(v)
        return out

    def class_attr(self, cls, name, selfv):
        r = self.class_lookup(cls, name)
        if r is None:
            return None
        kind, owner, node = r
        if kind == "fn":
            decs = {d.id if isinstance(d, ast.Name) else
                    getattr(d, "attr", "") for d in node.decorator_list}
            c = Closure(node, owner.frame, owner.module, owner)
            if "staticmethod" in decs:
                return c
            if "classmethod" in decs:
                return c.bind(cls)
            if selfv is None:
                return c
            if "property" in decs or "cached_property" in decs:
                return self.call_closure(c.bind(selfv), [], {}, None)
            return c.bind(selfv)
        if isinstance(node, ast.Name) and node.id != name and any(
                isinstance(x, ast.FunctionDef) and x.name == node.id
                for x in owner.node.body):
            return self.class_attr(owner, node.id, selfv)
        if outlive.attribute_kept(self.repo, owner.node, name, node):
            return sym(f"kept:{owner.name}.{name}")
        fr = Frame(owner.module, parent=owner.frame)
        fr.depth0, fr.entry_pc = 0, TRUE
        return self.ev(node, fr)

    def getattr(self, base, name, fr=None, default=None):
        if self.tables and isinstance(base, self.tables.Tabular):
            return self.tables.getattr_(self, base, name)
        if isinstance(base, CasesV):
            out = None
            for g, x in base.items:
                v = self.getattr(x, name, fr)
                out = v if out is None else self.merge(g, v, out)
            return out
        if isinstance(base, ModRef):
            return self.mod_attr(base, name)
        if isinstance(base, ClassRef):
            if name == "__name__":
                return const(base.name)
            v = self.class_attr(base, name, None)
            if v is not None:
                return v
            return tm.attr(mk("cls", base.name), name)
        if isinstance(base, NewObj):
            return self.field(base, name)
        if isinstance(base, TupleType) and name == "_fields":
            return tup([const(x) for x in base.fields])
        x = self.tuple_attr(base, name)
        if x is not None:
            return x
        if isinstance(base, T) and base.op == "record":
            return self.record_attr(base, name)
        if isinstance(base, T) and base.op == "cases" and any(
                x.op in ("record", "tuple") for _, x in base.args[0]):
            return self.getattr(CasesV(base.args[0]), name, fr)
        if isinstance(base, SuperRef):
            for b in self.bases(base.cls):
                v = self.class_attr(b, name, base.selfv)
                if v is not None:
                    return v
            return TMethod(base, name, tm.attr(sym("super"), name))
        if isinstance(base, DictObj) and base.kind == "frame":
            if name == "columns":
                return ListObj("list", self.iterate(base), len(self.ctx))
            return TMethod(base, name, tm.attr(self.term(base), name))
        if isinstance(base, (ListObj, DictObj)):
            return TMethod(base, name, None)
        if isinstance(base, (Closure, TMethod, Component)):
            if name == "__name__" and isinstance(base, Closure):
                return const(base.name)
            return TMethod(base, name, tm.attr(self.term(base), name))
        if isinstance(base, CompRef):
            return TMethod(base, name, tm.attr(base.term, name))
        t = self.term(base)
        if name == "expr" and (t.op in ("poly", "cases") or is_num(t)):
            return base         # of an Expression
        cls = base.cls if isinstance(base, ObjRef) else self.class_of(t)
        k = (t, name)
        if k in self.heap:
            v = self.heap[k]
            if v is not UNDEF:
                return v
        p = self.match_pattern(t, name)
        if p is not None:
            return p
        if cls is not None:
            v = self.class_attr(cls, name, ObjRef(t, cls))
            if v is not None:
                return v
            if name == "__class__":
                return cls
            if name in ("parent_block", "model") and not self.tables:
                return TMethod(base, name, tm.attr(t, name))
        if name == "__class__":
            return call(sym("type"), [t])
        if t is M and self.owner is not None and \
                self.owner.term.args[0] == name:
            return self.owner
        if t is M and name in self.blockrefs():
            return sym(name)
        if name in ("name", "local_name") and t.op == "call" and \
                t.args[0].op == "attr" and \
                t.args[0].args[1] == "parent_component":
            s = call(sym("str"), [t])
            return s if name == "name" else idx(call(
                tm.attr(s, "split"), [const(".")]), (const(-1),))
        self.reads.append((t, name, self.loc))
        return tm.attr(t, name)

    def block_names(self, name):
        """attribute names a block class stores on itself"""
        for m in self.repo.modules.values():
            d = m.defs.get(name)
            if isinstance(d, ast.ClassDef):
                return {n.attr for n in ast.walk(d)
                        if isinstance(n, ast.Attribute)
                        and isinstance(n.ctx, ast.Store)}
        return set()

    def blockrefs(self):
        if not hasattr(self, "_blockrefs"):
            self._blockrefs = {
                n for m in self.repo.modules.values()
                for n, d in m.defs.items()
                if isinstance(d, ast.ClassDef) and n.endswith("Block")}
        return self._blockrefs

    def class_of(self, t):
        if t in self.classmap:
            return self.classmap[t]
        if t.op == "bv" and t.args[1] == 0:
            for q in self.ctx:
                if q[0] == t.args[0] and q[1] in self.dom_class:
                    return self.dom_class[q[1]]
        return None

    def match_pattern(self, t, name):
        if t.op != "bv":
            return None
        dom = self.dom_of(t)
        for pn, q, g, base, v in reversed(self.patterns):
            if pn != name or base.op != "bv" or base.args[1] != t.args[1]:
                continue
            for (i, d, ar, so) in q:
                if i == base.args[0] and (dom is None or d is dom):
                    return self.subst_v(v, {base: t})
        return None

    def dom_of(self, t):
        for q in reversed(self.ctx):
            if q[0] == t.args[0]:
                return q[1]
        return None

    def mod_attr(self, base, name):
        n = base.name
        if n in self.repo.modules:
            return self.from_resolved(self.repo.resolve(n, name))
        if n.startswith("pyomo:"):
            return tm.attr(sym(n), name)
        full = f"{n}.{name}"
        if full in self.repo.modules:
            return ModRef(full)
        if n.split(".")[0] == "pyomo":
            return self.ext(full)
        if full in ("numpy.inf", "math.inf", "numpy.Inf"):
            return const(float("inf"))
        return ModRef(full)

    def setattr(self, base, name, v, fr):
        if isinstance(v, CasesV) and fr is not None and any(
                isinstance(x, Component) for _, x in v.items):
            g, x = v.items[0]
            if len(v.items) == 1:
                self.setattr(base, name, x, fr)
            else:
                self.branch(g, lambda: self.setattr(base, name, x, fr),
                            lambda: self.setattr(
                                base, name, CasesV(v.items[1:]), fr), fr)
            return
        if isinstance(v, Component) and not isinstance(base, NewObj):
            self.attach(base, name, v, fr)
            return
        if isinstance(base, CasesV):
            for g, x in base.items:
                pc = self.pc
                self.pc = b_and(pc, g)
                if self.pc is not FALSE:
                    self.setattr(x, name, v, fr)
                self.pc = pc
            return
        if isinstance(base, NewObj):
            if base.frozen:
                self.note_unknown("attribute of a kept object")
                return
            f = self.setter(base.cls, name)
            if f is not None:
                self.do_call(f.bind(base), [v], {}, None, fr)
            else:
                self.heap[(base.sym, name)] = v
            return
        try:
            t = self.term(base)
            if t.op == "record":
                raise Unsupported("kept object")
        except Unsupported:
            self.note_unknown("attribute store")
            return
        old = self.heap.get((t, name))
        if isinstance(v, CompRef) and isinstance(old, CompRef) and \
                old.term is v.term:
            return
        self.emit("store", name, (t, self.safe_term(v)))
        if isinstance(v, T) and v.free and not t.free and False:
            pass
        self.heap[(t, name)] = v

    def alive(self):
        """no error was raised so far"""
        n = len(self.effects)
        if self._alive[0] != n:
            g = self._alive[1]
            for e in self.effects[self._alive[0]:]:
                if e.kind == "raise":
                    g = b_and(g, b_not(self.exists(e.q, e.g)))
            self._alive = (n, g)
        return self._alive[1]

    def since(self, obj):
        """condition of reaching this point given the existence of obj"""
        if self.pc is TRUE:
            return TRUE
        if tm.b_implies(b_and(obj.pc0, self.alive()), self.pc):
            return TRUE
        return without_others(b_simplify(
            self.pc, b_and(obj.pc0, self.alive())))

    def safe_term(self, v):
        try:
            return self.term(v)
        except Unsupported:
            return mk("unknown", fresh_id("u"))

    def as_tuple(self, k):
        """key[1:] as tuple, if the length is known"""
        if k.op != "idx" or len(k.args[1]) != 1 or \
                k.args[1][0].op != "slice":
            return k
        lo, hi, by = k.args[1][0].args
        n = call(sym("len"), [k.args[0]])
        if hi is NONE:
            for c in range(1, 5):
                if b_and(self.pc, b_not(a_eq(n, const(c)))) is FALSE:
                    hi = const(c)
        lo = ZERO if lo is NONE else lo
        if by is not NONE or not all(is_num(x) and x.args[1] >= 0
                                     for x in (lo, hi)):
            return k
        return tup([self.subscript(k.args[0], const(i), None) for i in range(
            int(lo.args[1]), int(hi.args[1]))])

    def setitem(self, base, k, v, node):
        m = self.special(base, "__setitem__")
        if m is not None:
            self.do_call(m, [k, v], {}, node, None)
            return
        if isinstance(base, CasesV):
            for g, x in base.items:
                pc = self.pc
                self.pc = b_and(pc, g)
                if self.pc is not FALSE:
                    self.setitem(x, k, v, node)
                self.pc = pc
            return
        if isinstance(base, DictObj) and base.kind == "frame" and not (
                is_str(k) or k.op in ("bv", "tuple", "sym", "idx", "pos")):
            base.segs.append(Seg((), TRUE, self.note_unknown(
                "statement: part of a frame", node), k=k))
            return
        if isinstance(base, DictObj):
            k = self.as_tuple(k)
            if base.alias is not None:
                # a mapping held for every key of a mapping
                held, depth, key, kt, of = base.alias
                held.segs.append(Seg(
                    tuple(self.ctx[depth:]), b_and(self.since(
                        of), self.key_eq(key, kt)), v, k=k))
            if not self.ctx[base.depth:]:
                base.segs = [s for s in base.segs
                             if not (s.k is k and not s.q
                                     and tm.b_implies(s.g, self.pc))]
            self.held_by_all(v, self.ctx[base.depth:])
            base.segs.append(Seg(self.ctx[base.depth:], self.since(base), v,
                                 k=k))
            return
        if isinstance(base, ListObj):
            if is_num(k) and all(not s.q and s.g is TRUE for s in base.segs):
                i = int(k.args[1])
                if -len(base.segs) <= i < len(base.segs):
                    base.segs[i] = Seg((), TRUE, v)
                    return
            # override at one position
            t = self.term(base)
            base.segs = [Seg((), TRUE, mk("override", t, k,
                                          self.term(v), self.pc))]
            base.kind = "override"
            return
        if isinstance(base, CompRef) and base.kind in (
                "Constraint", "ConstraintList"):
            self.add_constraint(base.term, v)
            return
        t = self.term(base)
        if t is None:
            self.note_unknown("statement: part of a computed object", node)
            return
        self.emit("setitem", None, (t, k, self.safe_term(v)))
        # variable value assignment (x[i] = v is x[i].value = v)
        self.heap[(idx(t, (k,)), "value")] = v

    # ---------------------------------------------------------- components
    def attach(self, base, name, comp, fr, nameterm=None):
        owner = self.term(base)
        term = tm.attr(owner, name)
        if nameterm is not None:
            term = self.dynattr(owner, nameterm)
        k = comp.kind
        self.emit("attach", name, (owner, nameterm or const(name), k))
        comp.ref = term
        old_loc = self.loc
        self.loc = comp.loc
        kw = comp.kw
        try:
            if k in ("Constraint", "BuildAction", "BuildCheck"):
                ref = CompRef(k, term)
                self.heap[(owner, name)] = ref
                self.run_rule(base, term, comp, k)
            elif k == "ConstraintList":
                self.heap[(owner, name)] = CompRef(k, term)
            elif k == "Var":
                ref = term
                self.heap[(owner, name)] = ref
                self.make_var(base, owner, name, term, comp)
            elif k in ("Set", "RangeSet"):
                if k == "RangeSet":
                    a = [self.term(x) for x in comp.args]
                    lo, hi = (ONE, a[0]) if len(a) == 1 else (a[0], a[1])
                    init = mk("rangeiter", lo, add(hi, ONE))
                else:
                    init = kw.get("initialize",
                                  comp.args[0] if comp.args else tup([]))
                if isinstance(init, Closure):
                    init = self.call_closure(init, [base], {}, None)
                seglist = self.iterate(init)
                val = ListObj("set", seglist, len(self.ctx))
                self.emit("set", name, (owner, self.term(val), {
                    x: self.safe_term(y) for x, y in kw.items()
                    if x != "initialize"}))
                self.heap[(owner, name)] = val
            elif k == "Expression":
                v = kw.get("expr", kw.get("initialize"))
                if not comp.args and (
                        v is None and "rule" in kw
                        or isinstance(v, Closure)):
                    v = self.call_value(kw.get("rule", v), [base], {}, None)
                if v is None and "rule" in kw or comp.args:
                    rule = kw.get("rule", v)
                    qs, args, g = self.index_args(comp.args)
                    self.ctx.extend(qs)
                    pc = self.pc
                    self.pc = b_and(pc, g)
                    val = self.call_value(rule, [base] + args, {}, None)
                    self.emit("expression", name, (owner, self.term(val),
                                                   tup(args)))
                    del self.ctx[len(self.ctx) - len(qs):]
                    self.pc = pc
                    self.heap[(owner, name)] = term
                else:
                    self.emit("expression", name,
                              (owner, self.safe_term(v), None))
                    self.heap[(owner, name)] = v
                    comp.ref = self.safe_term(v)
            elif k == "Objective":
                v = kw.get("expr")
                if v is None and "rule" in kw:
                    v = self.call_value(kw["rule"], [base], {}, None)
                self.emit("objective", name, (
                    owner, self.safe_term(v),
                    self.safe_term(kw["sense"]) if "sense" in kw else None))
                self.heap[(owner, name)] = term
            else:
                self.emit("component", name, (
                    owner, k, tuple(self.safe_term(a) for a in comp.args),
                    tuple((x, self.safe_term(y))
                          for x, y in sorted(kw.items()))))
                if k == "Piecewise":
                    self.piecewise(base, name, comp)
                self.heap[(owner, name)] = CompRef(k, term)
        finally:
            self.loc = old_loc

    def piecewise(self, base, name, comp):
        """out == interpolation of f over the points, at every index"""
        kw = comp.kw
        out, inn = comp.args[-2], comp.args[-1]
        typ = self.safe_term(kw.get("pw_constr_type", NONE))
        kind = {"EQ": "eq", "UB": "le", "LB": "ge"}.get(
            tm.pyval(typ) if is_str(typ) else None)
        for q, vals, g in self.index_product(comp.args[:-2]):
            pc, n = self.pc, len(self.ctx)
            self.ctx.extend(q)
            self.pc = b_and(pc, g)
            ks = tuple(self.term(x) for x in vals)
            key = ks[0] if len(ks) == 1 else tup(ks)
            pts = kw.get("pw_pts")
            if isinstance(pts, DictObj):
                pts = self.subscript(pts, key, None)
            f = kw.get("f_rule", NONE)
            x = sym("spec:x")
            f = self.call_value(f, [base] + list(vals) + [x], {}, None)
            y, xi = idx(self.term(out), ks), idx(self.term(inn), ks)
            p = sub(y, call(sym("piecewise"), [
                xi, self.safe_term(f), self.safe_term(pts)]))
            if kind is None:
                self.emit("constraint", name, ("unknown", p))
            elif kind == "ge":
                self.emit("constraint", name, ("le", neg(p)))
            else:
                self.emit("constraint", name, (kind, p))
            del self.ctx[n:]
            self.pc = pc

    def index_args(self, args):
        """fresh quantifiers for an index set product"""
        qs, vals, g = [], [], TRUE
        for a in args:
            segs = self.iterate(a)
            if len(segs) != 1:
                return None, None, None
            s = segs[0]
            qs.extend(s.q)
            g = b_and(g, s.g)
            e = s.e
            t = self.term(e)
            vals.extend(t.args if t.op == "tuple" else [e])
        return qs, vals, g

    def index_product(self, args):
        """list of (quants, values, guard) over unions of segments"""
        out = [((), [], TRUE)]
        for a in args:
            new = []
            for s in self.iterate(a):
                t = self.safe_term(s.e)
                vals = list(t.args) if t.op == "tuple" else [s.e]
                for q, v, g in out:
                    new.append((q + s.q, v + vals, b_and(g, s.g)))
            out = new
        if len(out) > 1:
            out = [(tuple((m[i], rename_ids(d, m), ar, so)
                          for i, d, ar, so in q),
                    [self.rename_v(x, m) for x in v], rename_ids(g, m))
                   for q, v, g in out
                   for m in [{x[0]: fresh_id("i") for x in q}]]
        return out

    def run_rule(self, base, term, comp, kind):
        kw = comp.kw
        rule = kw.get("rule", kw.get("expr"))
        if rule is None:
            return
        for q, vals, g in self.index_product(comp.args):
            pc = self.pc
            n = len(self.ctx)
            self.ctx.extend(q)
            self.pc = b_and(pc, g)
            if "rule" in kw:
                v = self.call_value(rule, [base] + vals, {}, None)
            else:
                v = rule
            if kind == "Constraint":
                self.add_constraint(term, v)
            del self.ctx[n:]
            self.pc = pc

    def add_constraint(self, term, v):
        for g, kind, p in self.relations(v):
            gg = b_and(self.pc, g)
            if kind == "eq" and gg is not TRUE:
                # `relation is not True`: nothing to add for an identity
                a = a_eq0(p)
                if a not in (TRUE, FALSE) and a.args[1] is TRUE and \
                        a.args[2] is FALSE:
                    gg = tm.b_restrict(gg, a.args[0], False)
            if gg is FALSE:
                continue
            self.emit("constraint", term.args[1] if term.op == "attr"
                      else tm.show(term), (kind, p), g=gg)

    def relations(self, v):
        """value of a constraint rule -> [(guard, 'le'|'eq', poly<=0)]"""
        if isinstance(v, CasesV):
            return [(b_and(g, g2), k, p) for g, x in v.items
                    for g2, k, p in self.relations(x)]
        if isinstance(v, ListObj):
            v = self.term(v)
        if not isinstance(v, T):
            return [(TRUE, "unknown", self.note_unknown("constraint value"))]
        if v.op == "cases":
            return [(b_and(g, g2), k, p) for g, x in v.args[0]
                    for g2, k, p in self.relations(x)]
        if v is NONE or v is UNDEF or v is PYTRUE or v is TRUE:
            return []
        if v.op == "attr" and v.args[0].op == "sym" and v.args[1] in (
                "Skip", "NoConstraint", "Feasible"):
            return []
        if v.op == "relcases":
            return [(b_and(g, g2), k, p) for g, x in v.args[0]
                    for g2, k, p in self.relations(x)]
        if v.op == "tuple":
            a = v.args
            if len(a) == 2:
                return [(TRUE, "eq", sub(a[0], a[1]))]
            if len(a) == 3:
                return [(g, "le", sub(x, y)) for b, c in (a[:2], a[1:])
                        for g, x, y in self.ends(b, c)]
        if is_guard(v):
            r = self.guard_relations(v)
            if r is not None:
                return r
        return [(TRUE, "unknown", v)]

    def ends(self, b, c):
        """b <= c, where None means no limit"""
        bs = b.args[0] if b.op == "cases" else ((TRUE, b),)
        cs = c.args[0] if c.op == "cases" else ((TRUE, c),)
        return [(b_and(g, h), x, y) for g, x in bs for h, y in cs
                if x is not NONE and y is not NONE and
                b_and(g, h) is not FALSE]

    def guard_relations(self, f):
        """interpret a relational expression (stored as guard) as relation;
        conditional parts must have been split already (see compare)."""
        if f is TRUE:
            return []
        if f is FALSE:
            return [(TRUE, "eq", ONE)]
        a, hi, lo = f.args
        if a.op == "lt0":
            # not (q < 0)  <=>  -q <= 0
            if hi is FALSE:
                rest = self.guard_relations(lo)
                if rest is not None:
                    return [(TRUE, "le", neg(a.args[0]))] + rest
            if lo is FALSE:   # strict: treat as <=
                rest = self.guard_relations(hi)
                if rest is not None:
                    return [(TRUE, "le", a.args[0])] + rest
        if a.op == "eq0" and lo is FALSE:
            rest = self.guard_relations(hi)
            if rest is not None:
                return [(TRUE, "eq", a.args[0])] + rest
        # mixed: condition atoms with relation leaves (ite)
        if a.op != "rel":
            r1 = self.guard_relations(hi)
            r2 = self.guard_relations(lo)
            if r1 is not None and r2 is not None:
                return ([(b_and(lit(a), g), k, p) for g, k, p in r1]
                        + [(b_and(b_not(lit(a)), g), k, p)
                           for g, k, p in r2])
        return None

    def make_var(self, base, owner, name, term, comp):
        kw = comp.kw
        dom = kw.get("within", kw.get("domain"))
        for q, vals, g in self.index_product(comp.args):
            pc, n = self.pc, len(self.ctx)
            self.ctx.extend(q)
            self.pc = b_and(pc, g)
            ref = idx(term, tuple(self.term(x) for x in vals)) if vals \
                else term
            dv = dom
            if isinstance(dv, Closure):
                dv = self.call_value(dv, [base] + vals, {}, None)
            self.emit("var", name, (owner, ref, self.safe_term(dv)
                                    if dv is not None else None))
            self.domain_relations(ref, dv)
            b = kw.get("bounds")
            if b is not None:
                if isinstance(b, Closure):
                    b = self.call_value(b, [base] + vals, {}, None)
                self.bound_relations(name, ref, b)
            del self.ctx[n:]
            self.pc = pc

    def domain_relations(self, ref, dom):
        if dom is None:
            return
        t = self.safe_term(dom)
        for g, x in (t.args[0] if t.op == "cases" else [(TRUE, t)]):
            n = x.args[0].split(":")[-1].split(".")[-1] \
                if x.op == "sym" else "?"
            gg = b_and(self.pc, g)
            if n in ("NonNegativeReals", "NonNegativeIntegers",
                     "PositiveReals"):
                self.emit("constraint", "domain", ("le", neg(ref)), g=gg)
            elif n in ("NonPositiveReals",):
                self.emit("constraint", "domain", ("le", ref), g=gg)
            elif n in ("UnitInterval", "PercentFraction"):
                self.emit("constraint", "domain", ("le", neg(ref)), g=gg)
                self.emit("constraint", "domain", ("le", sub(ref, ONE)),
                          g=gg)
            if n in ("Binary", "Boolean"):
                self.emit_binary(ref, gg)
            elif n in ("NonNegativeIntegers", "Integers",
                       "PositiveIntegers"):
                self.emit("integer", "integrality", ref, g=gg)
            elif n == "?":
                self.emit("constraint", "domain", ("unknown", x), g=gg)

    def emit_binary(self, ref, g):
        self.emit("integer", "integrality", ref, g=g)
        self.emit("constraint", "domain", ("le", neg(ref)), g=g)
        self.emit("constraint", "domain", ("le", sub(ref, ONE)), g=g)

    def bound_relations(self, name, ref, b):
        if isinstance(b, CasesV):
            for g, x in b.items:
                pc = self.pc
                self.pc = b_and(pc, g)
                if self.pc is not FALSE:
                    self.bound_relations(name, ref, x)
                self.pc = pc
            return
        t = self.safe_term(b)
        if t.op == "cases":
            for g, x in t.args[0]:
                pc = self.pc
                self.pc = b_and(pc, g)
                if self.pc is not FALSE:
                    self.bound_relations(name, ref, x)
                self.pc = pc
            return
        if t is NONE or t is UNDEF:
            return
        if t.op == "tuple" and len(t.args) == 2:
            lo, hi = t.args
            self.lb(name, ref, lo)
            self.ub(name, ref, hi)
            return
        self.emit("constraint", name, ("unknown", t))

    def _each(self, v, f):
        for g, x in (v.args[0] if v.op == "cases" else [(TRUE, v)]):
            if x is NONE or x is UNDEF or (
                    is_const(x) and x.args[0] == "inf"):
                continue
            gg = b_and(self.pc, g)
            if x.op == "sym" and x.args[0].startswith("ARG:"):
                gg = b_and(gg, b_not(a_is(x, NONE)))
            if gg is not FALSE:
                f(x, gg)

    def lb(self, name, ref, v):
        self._each(v, lambda x, g: self.emit(
            "constraint", name + ".lb", ("le", sub(x, ref)), g=g))

    def ub(self, name, ref, v):
        self._each(v, lambda x, g: self.emit(
            "constraint", name + ".ub", ("le", sub(ref, x)), g=g))

    # ---------------------------------------------------------- calls
    def call_value(self, f, args, kw, node):
        CURRENT[0] = self
        if node is None and isinstance(f, Closure):     # to be analysed
            return self.call_closure(f, args, kw, node)
        return self.do_call(f, args, kw, node, None)

    def call_closure(self, c, args, kw, node):
        if c.after:
            d = c.copy()
            d.after = ()
            v = self.call_closure(d, args, kw, node)
            for f in c.after:
                v = f(v)
            return v
        fn = c.node
        self.call_sites += 1
        if self.depth > self.MAXDEPTH or self.current_fn.count(
                id(fn)) >= 4:
            return call(self.term(Closure(c.node, None, c.module)),
                        [self.safe_term(a) for a in args],
                        [(k, self.safe_term(v)) for k, v in kw.items()])
        fr = Frame(c.module, parent=c.frame, fn=c.name, cls=c.cls,
                   selfv=c.selfv)
        fr.depth0, fr.entry_pc = len(self.ctx), self.pc
        if c.pre or c.prekw:
            args, kw = list(c.pre) + list(args), {**c.prekw, **kw}
        if c.selfv is not None:
            args = [c.selfv] + list(args)
        self.bind_args(fn.args, args, kw, fr, c)
        if c.module.name != "solphsa.prelude":
            self.visited_functions.add((c.module.path, c.name, fn.lineno))
        if c.name in self.held and self.depth:
            r = self.held[c.name](fr.vars)
            if r is not None:
                return r
        if isinstance(fn, ast.Lambda):
            self.depth += 1
            try:
                return self.ev(fn.body, fr)
            finally:
                self.depth -= 1
        gen = self.is_generator(fn)
        if gen:
            fr.yields = ListObj("gen", [], len(self.ctx))
        loc = self.loc
        self.depth += 1
        self.fnstack.append(c.name)
        self.current_fn.append(id(fn))
        pc0 = self.pc
        try:
            self.block(fn.body, fr)
        finally:
            self.depth -= 1
            self.fnstack.pop()
            self.current_fn.pop()
            self.loc = loc
        # merge returns
        rets = list(fr.returns)
        if self.pc is not FALSE:
            rets.append(((), self.pc, NONE, self.snap(fr)))
        if not rets:
            self.pc = FALSE
            return UNDEF
        val, heap, pats, out = None, None, None, FALSE
        for q, g, v, st in reversed(rets):
            out = b_or(out, self.exists(q, g) if q else g)
            rel = b_simplify(g, pc0)
            if q:
                t = self.safe_term(v)
                rel0 = rel
                rel = self.exists(q, rel)
                if t.free & {x[0] for x in q} and len(q) == 1:
                    (i, dom, ar, so), = q
                    f = self.first_such(Seg(q, TRUE, None), rel0)
                    v = subst(t, {bv(i, c, so): f if ar == 1 else idx(
                        f, (const(c),)) for c in range(ar)})
                elif t.free & {x[0] for x in q}:
                    qq, mm = tm.canon_binders(tuple(q), [t], [rel0])
                    v = mk("firstmatch", mk("comp", "seq", (
                        (qq, rename_ids(rel0, mm), rename_ids(t, mm)),)))
            if val is None:
                val, heap, pats = v, st[1], st[2]
            else:
                val = self.merge(rel, v, val)
                if st[1] != heap:
                    h = {}
                    for k in list(st[1]) + [k for k in heap
                                            if k not in st[1]]:
                        x, y = st[1].get(k, UNDEF), heap.get(k, UNDEF)
                        if (x is UNDEF) != (y is UNDEF):
                            x, y = [self.absent(k) if z is UNDEF else z
                                    for z in (x, y)]
                        h[k] = self.merge(rel, x, y)
                    heap = h
                for p in st[2]:
                    if p not in pats:
                        pats = pats + [p]
        self.heap, self.patterns = dict(heap), list(pats)
        self.pc = out
        if gen:
            return fr.yields
        return val

    def is_generator(self, fn):
        todo = list(fn.body)
        while todo:
            n = todo.pop()
            if isinstance(n, (ast.Yield, ast.YieldFrom)):
                return True
            if isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef,
                              ast.GeneratorExp, ast.ListComp)):
                continue
            todo.extend(ast.iter_child_nodes(n))
        return False

    def bind_args(self, a, args, kw, fr, c):
        names = [x.arg for x in a.posonlyargs + a.args]
        kw = dict(kw)
        args = list(args)
        star = [x for x in args if isinstance(x, T) and x.op == "star"]
        if len(star) == 1 and not a.vararg:
            # as many values as parameters remain
            need = [n for k, n in enumerate(names) if n not in kw and
                    k < len(names) - len(a.defaults)]
            at = args.index(star[0])
            args[at:at + 1] = [idx(star[0].args[0], (const(k),))
                               for k in range(len(need) - len(args) + 1)]
            star = []
        for i, n in enumerate(names):
            if i < len(args) and not (star and args[i] in star):
                fr.vars[n] = args[i]
            elif n in kw:
                fr.vars[n] = kw.pop(n)
            else:
                nd = len(a.defaults)
                j = i - (len(names) - nd)
                if j >= 0 and outlive.default_kept(
                        c.node, n, a.defaults[j]):
                    fr.vars[n] = sym(f"kept:{n}")
                elif n in c.dvals:
                    fr.vars[n] = c.dvals[n]
                elif j >= 0:
                    dfr = Frame(c.module, parent=c.frame)
                    dfr.depth0, dfr.entry_pc = 0, TRUE
                    fr.vars[n] = self.ev(a.defaults[j], dfr)
                else:
                    if star:
                        self.note_unknown("arguments", fr)
                    fr.vars[n] = sym(f"arg:{n}") if star or "**" in kw \
                        else sym(f"missing:{n}")
        if a.vararg:
            fr.vars[a.vararg.arg] = ListObj("tuple", [
                Seg((), TRUE, x) for x in args[len(names):]])
        for x, d in zip(a.kwonlyargs, a.kw_defaults):
            if x.arg in kw:
                fr.vars[x.arg] = kw.pop(x.arg)
            elif d is not None and outlive.default_kept(c.node, x.arg, d):
                fr.vars[x.arg] = sym(f"kept:{x.arg}")
            elif x.arg in c.dvals:
                fr.vars[x.arg] = c.dvals[x.arg]
            elif d is not None:
                dfr = Frame(c.module, parent=c.frame)
                dfr.depth0, dfr.entry_pc = 0, TRUE
                fr.vars[x.arg] = self.ev(d, dfr)
        if a.kwarg:
            if "**" in kw and len(kw) == 1:
                fr.vars[a.kwarg.arg] = kw["**"]
            else:
                fr.vars[a.kwarg.arg] = DictObj([
                    Seg((), TRUE, v, k=const(k)) for k, v in kw.items()],
                    len(self.ctx))

    # ---------------------------------------------------------- expressions
    def ev(self, e, fr):
        self.nodes += 1
        m = getattr(self, "e_" + type(e).__name__, None)
        if m is None:
            return self.note_unknown(f"expression {type(e).__name__}", e)
        return m(e, fr)

    def e_Constant(self, e, fr):
        return const(e.value)

    def e_Name(self, e, fr):
        if e.id == "__class__":
            return fr.cls
        v = self.lookup(e.id, fr)
        if isinstance(v, ListObj) and v.kind == "gen":
            v.read_at = e
        return v

    def once(self, v, segs):
        """what is left in an iterator, where it has been read before"""
        if v.kind != "gen" or v.read_at is None:
            return segs
        left = TRUE
        for at, pc in v.uses:
            if at is v.read_at:
                break
            if b_and(pc, self.pc) is not FALSE:
                left = b_and(left, b_simplify(b_not(pc), self.pc))
        else:
            v.uses.append((v.read_at, self.pc))
        return segs if left is TRUE else [
            Seg(s.q, b_and(s.g, left), s.e, s.k, s.additive) for s in segs]

    def e_NamedExpr(self, e, fr):
        v = self.ev(e.value, fr)
        self.assign(e.target, v, fr)
        return v

    def e_Tuple(self, e, fr):
        return self.seq("tuple", e.elts, fr)

    def e_List(self, e, fr):
        return self.seq("list", e.elts, fr)

    def e_Set(self, e, fr):
        return self.seq("set", e.elts, fr)

    def seq(self, kind, elts, fr):
        segs = []
        for x in elts:
            if isinstance(x, ast.Starred):
                v = self.ev(x.value, fr)
                u = self.unpack_any(v) if kind == "tuple" else None
                segs.extend(self.iterate(v) if u is None else
                            [Seg((), TRUE, y) for y in u])
            else:
                segs.append(Seg((), TRUE, self.kept_iterator(
                    x, self.ev(x, fr), fr)))
        if kind == "tuple" and all(not s.q and s.g is TRUE and isinstance(
                s.e, T) for s in segs):
            return tup([s.e for s in segs])
        return ListObj(kind, segs, len(self.ctx))

    def e_Dict(self, e, fr):
        d = DictObj([], len(self.ctx))
        for k, v in zip(e.keys, e.values):
            if k is None:
                x = self.ev(v, fr)
                if isinstance(x, DictObj):
                    d.segs.extend(x.segs)
                else:
                    d.star.append(self.term(x))
                    for s in self.iterate(x):
                        d.segs.append(Seg(s.q, s.g, idx(
                            self.term(x), (self.term(s.e),)),
                            k=self.term(s.e)))
                continue
            d.segs.append(Seg((), TRUE, self.ev(v, fr),
                              k=self.term(self.ev(k, fr))))
        return d

    def e_JoinedStr(self, e, fr):
        parts = []
        for v in e.values:
            if isinstance(v, ast.Constant):
                parts.append(const(v.value))
            else:
                x = self.ev(v.value, fr)
                if v.format_spec is not None:
                    x = call(sym("format"), [self.term(x), self.term(
                        self.ev(v.format_spec, fr))])
                parts.append(self.term(x))
        return self.fstr(parts)

    def fstr(self, parts):
        out = []
        for p in parts:
            for x in (p.args if p.op == "fstr" else [p]):
                if is_num(x):
                    x = const(str(pyval(x)))
                if x.op == "call" and x.args[0] is sym("str"):
                    x = x.args[1][0]
                if is_str(x) and out and is_str(out[-1]):
                    out[-1] = const(out[-1].args[1] + x.args[1])
                elif is_str(x) and x.args[1] == "":
                    continue
                else:
                    out.append(x)
        if not out:
            return const("")
        if len(out) == 1 and is_str(out[0]):
            return out[0]
        return mk("fstr", *out)

    def e_Attribute(self, e, fr):
        base = self.ev(e.value, fr)
        self.loc = (fr.module.path, e.lineno)
        return self.getattr(base, e.attr, fr)

    def ev_slice(self, s, fr):
        if isinstance(s, ast.Slice):
            return mk("slice", *[self.term(self.ev(x, fr)) if x is not None
                                 else NONE
                                 for x in (s.lower, s.upper, s.step)])
        if isinstance(s, ast.Tuple):
            items = []
            for x in s.elts:
                if isinstance(x, ast.Starred):
                    u = self.unpack_any(self.ev(x.value, fr))
                    if u is None:
                        items.append(mk("star", self.term(
                            self.ev(x.value, fr))))
                    else:
                        items.extend(self.term(y) for y in u)
                else:
                    items.append(self.ev_slice(x, fr))
            return tup(items)
        return self.safe_term(self.ev(s, fr))

    def e_Subscript(self, e, fr):
        base = self.ev(e.value, fr)
        if self.tables and isinstance(base, self.tables.Tabular):
            return self.tables.subscript(self, base, e.slice, fr, e)
        k = self.ev_slice(e.slice, fr)
        if k.op == "tuple" and any(x.op == "star" for x in k.args):
            k = self.spread_edge(base, k)
        return self.subscript(base, k, e)

    def spread_edge(self, base, k):
        """flow[(*edge, t)]: the variables of flows have three indices"""
        try:
            b = self.term(base)
        except Unsupported:
            return k
        if len(k.args) != 2 or b.op != "attr" or not (
                b.args[0] is M and b.args[1] == "flow" or
                b.args[0].op == "sym" and
                b.args[0].args[0].endswith("FlowBlock")):
            return k
        out = []
        for x in k.args:
            out += [idx(x.args[0], (ZERO,)), idx(x.args[0], (ONE,))] \
                if x.op == "star" else [x]
        return tup(out)

    def subscript(self, base, k, node):
        self.looked_through(base)
        if isinstance(base, T) and base.op == "call" and k is const(-1) and \
                base.args[0].op == "attr" and \
                base.args[0].args[1] == "rsplit" and len(base.args[1]) == 2:
            return idx(call(tm.attr(base.args[0].args[0], "split"),
                            base.args[1][:1]), (k,))
        if isinstance(base, CasesV):
            out = None
            for g, x in base.items:
                if b_and(self.pc, g) is FALSE:
                    continue
                v = self.subscript(x, k, node)
                out = v if out is None else self.merge(g, v, out)
            return UNDEF if out is None else out
        m = self.special(base, "__getitem__")
        if m is not None:
            return self.do_call(m, [k], {}, node, None)
        if isinstance(base, DictObj) and base.factory is not None:
            v = self.call_value(base.factory, [], {}, node)
            x = self.grouped(base, k, v)
            if x is not None:
                return x
            g = self.contains(k, base)
            if isinstance(v, T):
                x = self.dict_get(base, k, node, default=v)
                return x if g is TRUE else self.merge(g, x, v)
            if g is not TRUE:
                base.segs.append(Seg(self.ctx[base.depth:], b_and(
                    self.since(base), b_not(g)), v, k))
        if isinstance(base, DictObj):
            return self.dict_get(base, k, node)
        if isinstance(base, ListObj):
            return self.list_get(base, k, node)
        if isinstance(base, ModRef):
            return mk("idx", self.term(base), (k,))
        t = self.term(base)
        if k.op == "pos" and k.args[0] is self.strip_iter(t):
            return k.args[1]
        if t.op == "dict" and k.op != "slice":
            return self.dict_get(self.thaw_dict(t), k, node)
        if k.op == "slice":
            if t.op == "tuple" and all(x is NONE or is_num(x)
                                       for x in k.args):
                a = [None if x is NONE else int(x.args[1]) for x in k.args]
                return tup(t.args[slice(*a)])
            if is_str(t) and all(x is NONE or is_num(x) for x in k.args):
                a = [None if x is NONE else int(x.args[1]) for x in k.args]
                return const(t.args[1][slice(*a)])
            if t.op == "aslist" or (t.op == "attr" and t.args[0] is M
                                    and t.args[1] in CARD):
                b = self.strip_iter(t)
                c = card_of(b)
                if c is not None and k.args[2] in (NONE, ONE):
                    lo, hi = k.args[0], k.args[1]
                    q, e = self.quant(b)
                    g = TRUE
                    if lo is not NONE:
                        if is_num(lo) and lo.args[1] < 0:
                            lo = add(c, lo)
                        g = b_and(g, b_not(a_lt0(sub(e, lo))))
                    if hi is not NONE:
                        if is_num(hi) and hi.args[1] < 0:
                            hi = add(c, hi)
                        g = b_and(g, a_lt0(sub(e, hi)))
                    return ListObj("list", [Seg(q, g, e)], len(self.ctx))
        if t.op == "attr" and t.args[1] == "loc" and (
                tm.is_guard(k) or k.op == "invert" or k.op == "call"
                and k.args[0].op == "attr" and k.args[0].args[1] in (
                    "isin", "isna", "isnull", "notna", "notnull")):
            return idx(t.args[0], (k,))    # the rows where it holds
        if t.op == "tuple" and is_num(k):
            i = int(k.args[1])
            if -len(t.args) <= i < len(t.args):
                return t.args[i]
        r = idx(t, (k,))
        return r

    def list_get(self, base, k, node):
        if k.op == "slice":
            if base.order != "":
                return idx(self.put_in_order(base), (k,))
            if all(not s.q and s.g is TRUE for s in base.segs) and all(
                    x is NONE or is_num(x) for x in k.args):
                a = [None if x is NONE else int(x.args[1]) for x in k.args]
                return ListObj(base.kind, base.segs[slice(*a)], base.depth)
            t = self.term(base)
            if t.op == "aslist":
                return self.subscript(t, k, node)
            if len(base.segs) == 1 and base.order == "" and \
                    base.kind != "set":
                # a part of the mapped list
                s, = base.segs
                e = self.safe_term(s.e)
                if len(s.q) == 1 and s.g is TRUE and s.q[0][2] == 1:
                    i, dom, ar, so = s.q[0]
                    part = self.subscript(mk("aslist", dom), k, node)
                    return ListObj(base.kind, [Seg(r.q, r.g, subst(
                        e, {bv(i, 0, so): self.term(r.e)}))
                        for r in self.iterate(part)], len(self.ctx))
            return mk("idx", t, (k,))
        if base.order != "" and k in (ZERO, const(-1)) and \
                len(base.segs) == 1 and compared_node(
                    base.segs[0].q, base.segs[0].g) is not None:
            # there is only one
            return self.list_get(ListObj(
                base.kind, base.segs, base.depth), ZERO, node)
        if base.order != "":
            if base.order in ("min", "max") and is_num(k) and \
                    k.args[1] in (0, -1):
                return self._minmax(
                    base.order if k is ZERO else
                    "min" if base.order == "max" else "max",
                    [ListObj(base.kind, base.segs, base.depth)], {})
            if base.order == "back" and is_num(k):
                return self.subscript(
                    ListObj(base.kind, base.segs, base.depth),
                    sub(const(-1), k), node)
            return idx(self.put_in_order(base), (k,))
        if is_num(k) and base.kind != "override":
            i = int(k.args[1])
            if all(not s.q and s.g is TRUE for s in base.segs):
                if -len(base.segs) <= i < len(base.segs):
                    return base.segs[i].e
            if i == 0 and base.segs and not base.segs[0].q and \
                    base.segs[0].g is TRUE:
                return base.segs[0].e
        t = self.term(base)
        if t.op == "tuple" and not is_num(k):
            return mk("select", t, k)
        if t.op == "comp" and any(
                g is not TRUE and b_simplify(g, self.pc) is TRUE
                for q, g, e in t.args[1]):
            # filled under the conditions that hold here
            return self.list_get(ordered(ListObj(base.kind, [
                Seg(q, b_simplify(g, self.pc), e) for q, g, e in t.args[1]],
                base.depth), base.order), k, node)
        if t.op == "comp" and len(t.args[1]) > 1 and k is ZERO:
            r = self.front_of(t.args[1])
            if r is not None:
                return r
        if t.op == "comp" and len(t.args[1]) == 1:
            r = self.nth_found(t.args[1][0], k)
            if r is not None:
                return r
        if t.op == "comp" and len(t.args[1]) == 1:
            # nth element of a mapped, unfiltered sequence
            q, g, e = t.args[1][0]
            if len(q) == 1 and g is TRUE:
                i, dom, ar, so = q[0]
                c = card_of(dom)
                el = k if dom.op == "range" and (
                    len(dom.args) == 1 or dom.args[0] is ZERO
                    or dom.args[1].op == "ncols") else nth(dom, k)
                if c is not None:
                    el = add(c, k) if is_num(k) and k.args[1] < 0 else k
                if ar == 1:
                    r = subst(e, {bv(i, 0, so): el})
                    if r.op == "comp" and r.args[0] == "set":
                        r = ListObj("set", self.iterate(r),
                                    len(self.ctx))
                    return r
        return idx(t, (k,))

    def looked_up(self, coll, key):
        if len(self.ctx) > coll.depth:
            self.lookups.append((coll, key, list(coll.segs), self.loc,
                                 self.since(coll)))

    def filled(self, body, fr):
        """the containers that the statements of a loop add to"""
        out = []
        for s in body:
            for n in ast.walk(s):
                x = None
                if isinstance(n, ast.Call) and isinstance(
                        n.func, ast.Attribute) and n.func.attr in (
                            "append", "add"):
                    x = n.func.value
                elif isinstance(n, ast.Subscript) and isinstance(
                        n.ctx, ast.Store):
                    x = n.value
                if isinstance(x, ast.Name):
                    v = self.lookup(x.id, fr, quiet=True)
                    if isinstance(v, (ListObj, DictObj)) and not any(
                            v is o for o in out) and (
                                isinstance(v, ListObj) or v.kind == "dict"
                                and v.factory is None):
                        out.append(v)
        return out

    def met_before(self, coll, key):
        """earlier iterations have put the key into the container"""
        if not any(coll is o for o in self.filling):
            return FALSE
        q = tuple(self.ctx[coll.depth:])
        if not q or self.unique(key, q):
            return FALSE
        return b_not(first_of(key, q))

    def looked_through(self, coll):
        """all that a list holds by now matters"""
        if isinstance(coll, ListObj) and len(self.ctx) > coll.depth:
            self.lookups.append((coll, None, [], self.loc, TRUE))

    def carried_lookups(self, n0, seg, depth0):
        """look-ups in a collection that earlier iterations have filled"""
        ids = {x[0] for x in seg.q}
        out = []
        for coll, key, had, loc, g in self.lookups[n0:]:
            if coll.depth > depth0:
                continue
            old = {id(s) for s in had}
            for s in coll.segs:
                if s.additive or not any(x[0] in ids for x in s.q):
                    continue
                if key is None:
                    out.append(loc)
                    break
                if id(s) in old:
                    continue
                try:
                    e = self.term(s.k if isinstance(coll, DictObj) else s.e)
                except Unsupported:
                    continue
                if e is key:
                    first = first_of(key, s.q).args[0]
                    if self.one_to_one(e, seg.q) or tm.b_restrict(
                            s.g, first, False) is FALSE or tm.b_restrict(
                                s.g, first, True) is g:
                        continue
                m, _ = self.match_key(s.q, TRUE, e, key)
                if m is not None:
                    out.append(loc)
                    break
        return out

    def one_to_one(self, e, q):
        """different iterations give different values of e"""
        cs = e.args if e.op == "tuple" else (e,)
        return all(any(c is bv(i, k, so) for c in cs) and not tm.repeated(d)
                   for i, d, ar, so in q for k in range(ar))

    def unique(self, e, q):
        """different iterations give different values of e, given that
        labels are unique"""
        leaves = settled(e)
        for i, d, ar, so in q:
            if tm.repeated(d):
                return False
            for k in range(ar):
                x = bv(i, k, so)
                if x in leaves:
                    continue
                if any(y.op == "poly" and i in y.free and is_num(sub(
                        sub(subst(y, {x: add(x, ONE)}), y), ZERO))
                        and sub(subst(y, {x: add(x, ONE)}), y) is not ZERO
                        for y in leaves):
                    continue
                return False
        return True

    def grouped(self, d, kt, v):
        """the list of a key, made when a loop first meets the key"""
        q = tuple(self.ctx[d.depth:])
        if not isinstance(v, ListObj) and not (
                isinstance(v, DictObj) and v.kind == "dict") or \
                not isinstance(kt, T) or not q or self.one_to_one(
                kt, q) or d.kind != "dict":
            return None
        if v.segs and not (isinstance(v, DictObj) and all(
                not s.q and s.g is TRUE and is_str(s.k) and (
                    is_const(s.e) if isinstance(s.e, T) else isinstance(
                        s.e, (ListObj, DictObj)) and not s.e.segs)
                for s in v.segs)):
            return None
        g = self.since(d)
        one = not kt.free & {x[0] for x in q}
        dom = None if one else self.term(
            ListObj("set", [Seg(q, self.outside(g, q)[1], kt)],
                    len(self.ctx)))
        for s in d.segs:
            if b_and(s.g, g) is FALSE:
                continue
            if type(s.e) is not type(v) or not (
                    s.k is kt and not s.q if one else
                    len(s.q) == 1 and s.q[0][1] is dom):
                return None
            break
        else:
            if one:
                s = Seg((), self.exists(q, g), ListObj(v.kind, [], d.depth)
                        if isinstance(v, ListObj) else DictObj(
                            list(v.segs), d.depth), k=kt)
            else:
                k = bv(fresh_id("i"), 0, "obj")
                s = Seg(((k.args[0], dom, 1, "obj"),), self.outside(g, q)[0], v, k=k)
            d.segs.append(s)
        if one:
            return s.e
        r = ListObj(s.e.kind, [], len(self.ctx)) if isinstance(
            s.e, ListObj) else DictObj([x for x in v.segs], len(self.ctx))
        r.alias = (s.e, d.depth, s.k, kt, d)
        return r

    @staticmethod
    def outside(g, q):
        """the conditions of reaching a loop and of taking its body"""
        return (TRUE, g) if g.free & {x[0] for x in q} else (g, TRUE)

    def dict_get(self, d, k, node=None, default=None):
        kt = self.term(k)
        self.looked_up(d, kt)
        s0 = d.segs[-1] if d.segs else None
        if s0 is not None and s0.q and s0.k is kt and not s0.additive and \
                isinstance(s0.e, (ListObj, DictObj)) and not (
                    {x[0] for x in s0.q} - {x[0] for x in self.ctx}) and \
                s0.e.depth >= d.depth + len(s0.q) and \
                b_and(self.pc, b_not(s0.g)) is FALSE:
            return s0.e         # stored by this very iteration
        res = None
        extra = ZERO
        has_add = False
        for s0 in d.segs:
            s = self.refresh(s0)
            key = self.term(s.k)
            m, g = self.match_key(s.q, s.g, key, kt)
            if m is None:
                continue
            if s.additive:
                has_add = True
                # sum over the remaining quantifiers
                rest = [x for x in s.q]
                eq = self.key_eq(key, kt)
                extra = add(extra, summation(rest, b_and(s.g, eq),
                                             self.term(s.e)))
                continue
            e = self.subst_v(s.e, m) if m else s.e
            if isinstance(s0.e, ListObj) and s0.e.shared:
                e = s0.e        # one and the same for all keys
            elif isinstance(e, ListObj):
                e.shared = False
            if s.q and key.op in ("idx", "attr") and key.free:
                e = self.subst_v(e, {key: kt})    # that is the same
            if s.q and isinstance(e, ListObj) and isinstance(
                    s0.e, ListObj) and not s0.e.shared:
                if e is s.e or e is s0.e:
                    e = ordered(ListObj(e.kind, list(e.segs), e.depth),
                                e.order)
                e.alias = (s0.e, d.depth, self.term(s0.k), kt, d)
            elif s.q and isinstance(e, DictObj) and isinstance(
                    s0.e, DictObj) and e.kind == "dict":
                if e is s.e or e is s0.e:
                    e = DictObj(list(e.segs), e.depth)
                e.alias = (s0.e, d.depth, self.term(s0.k), kt, d)
            elif d.alias is not None and not s.q and isinstance(
                    e, (ListObj, DictObj)) and e.alias is None:
                e = self.held_within(d, s0.k, e)
            gg = b_simplify(g, self.pc)
            if gg is FALSE:
                continue
            e = self.entry_found(s, key, kt, m, e)
            if res is not None and s.q:
                # an entry only replaces another one if the key is there
                _, g = self.match_elem(s.q, s.g, key, kt)
                gg = b_simplify(g, self.pc)
            if res is None or gg is TRUE:
                res = e
            else:
                res = self.merge(gg, e, res)
        if res is None:
            res = default if default is not None else mk(
                "idx", self.term(d), (kt,))
        if has_add:
            res = add(self.term(res), extra)
        if isinstance(res, T) and res.op == "cases":
            left = [(g, x) for g, x in res.args[0]
                    if b_and(g, self.pc) is not FALSE]
            if len(left) == 1:
                return left[0][1]
        return res

    def held_within(self, d, k, e):
        """a collection in the mapping held for each key of a mapping"""
        held = [s.e for s in d.alias[0].segs if s.k is k and not s.q
                and type(s.e) is type(e)]
        if len(held) != 1:
            raise Unsupported("collection of a mapping of a mapping")
        r = ordered(ListObj(e.kind, list(e.segs), e.depth),
                    e.order) if isinstance(e, ListObj) else DictObj(list(e.segs), e.depth, e.kind)
        r.alias = (held[0],) + d.alias[1:]
        return r

    def entry_found(self, s, key, kt, m, e):
        """the entry of the element whose key is looked up"""
        if len(s.q) != 1 or s.q[0][2] != 1 or s.additive or not isinstance(
                e, T) or s.q[0][0] not in e.free:
            return e
        i, _, _, so = s.q[0]
        return subst(e, {bv(i, 0, so): self.first_such(
            s, b_and(s.g, self.key_eq(key, kt)))})

    def key_eq(self, a, b):
        if a is b:
            return TRUE
        if a.op == "tuple" and b.op == "tuple":
            if len(a.args) != len(b.args):
                return FALSE
            return b_and(*[self.key_eq(x, y)
                           for x, y in zip(a.args, b.args)])
        return a_eq(a, b)

    def determined(self, q, g, m):
        """what the equations g implies determine of the quantified values
        that are not in m"""
        out = {}
        left = {x[0]: x for x in q
                if not any(c.args[0] == x[0] for c in m)}
        for a in sorted(tm.b_atoms(g), key=lambda x: x.key):
            if a.op != "eq0" or tm.b_restrict(g, a, False) is not FALSE:
                continue
            for i in sorted(a.free & set(left)):
                v = tm._solve_for(a.args[0], i)
                if v is None or v.free & set(left):
                    continue
                _, _, ar, so = left[i]
                for k in range(ar):
                    c = bv(i, k, so)
                    if c not in out and tm.mentions(a, c):
                        out[c] = v
        for i, (_, _, ar, so) in left.items():
            if ar == 1 and bv(i, 0, so) not in out:
                r = tm.solve_parts(g, i, so)
                if r is not None and not r[0].free & set(left):
                    out[bv(i, 0, so)] = r[0]
            cs = [bv(i, k, so) for k in range(ar)]
            if any(c in out for c in cs) and not all(c in out for c in cs):
                for c in cs:
                    out.pop(c, None)
        return out

    def period_of(self, q, m):
        """the period follows from a timestep in it"""
        out = {}
        for i, dom, ar, so in q:
            if not (dom.op == "idx" and tm.is_tip(dom.args[0])):
                continue
            x, p = bv(i, 0, so), dom.args[1][0]
            if x in m and p.op == "bv" and p not in m and any(
                    y[0] == p.args[0] for y in q):
                out[p] = idx(tm.attr(dom.args[0].args[0], tm.PERIOD_OF),
                             (m[x],))
        return out

    def match_key(self, q, g, key, kt):
        """substitution of quantified ids so that key becomes kt"""
        m = {}

        def rec(a, b):
            if a is b:
                return True
            if a.op == "bv" and any(a.args[0] == x[0] for x in q):
                if a in m:
                    return m[a] is b
                m[a] = b
                return True
            if a.op == "tuple" and b.op == "tuple" and len(a.args) == len(
                    b.args):
                return all(rec(x, y) for x, y in zip(a.args, b.args))
            if is_const(a) and is_const(b):
                return False
            return None
        r = rec(key, kt)
        if r:
            g = subst(g, m)
            if len({c.args[0] for c in m}) < len(q):
                n = {**self.determined(q, g, m), **self.period_of(q, m)}
                m, g = {**m, **n}, subst(g, n)
            return m, g
        if r is False:
            return None, None
        eq = self.key_eq(key, kt)
        if eq is FALSE:
            return None, None
        return m, b_and(subst(g, m), subst(eq, m))

    def e_BinOp(self, e, fr):
        a = self.ev(e.left, fr)
        b = self.ev(e.right, fr)
        if self.tables and isinstance(e.op, (ast.BitAnd, ast.BitOr)) and all(
                isinstance(x, self.tables.Column) for x in (a, b)):
            return self.tables.connect(self, e.op, a, b)
        return self.binop(e.op, a, b, e)

    def collapse(self, v):
        """alternatives of lists as one list of guarded segments"""
        if isinstance(v, CasesV) and all(
                isinstance(x, ListObj) and x.kind in ("list", "set", "gen")
                for _, x in v.items):
            return ListObj(v.items[0][1].kind, [
                Seg(s.q, b_and(g, s.g), s.e) for g, x in v.items
                for s in x.segs], len(self.ctx))
        return v

    def binop(self, op, a, b, node, inplace=False):
        nm = OPERATORS.get(type(op))
        for x, y, n in ((a, b, f"__{nm}__"), (b, a, f"__r{nm}__")):
            m = self.special(x, n)
            if m is not None:
                return self.do_call(m, [y], {}, node, None)
        if not inplace:
            a, b = self.collapse(a), self.collapse(b)
        if isinstance(a, CasesV) or isinstance(b, CasesV):
            try:
                a, b = self.term(a), self.term(b)
            except Unsupported:
                return self.note_unknown("binary operation", node)
        if isinstance(op, ast.Add) and (
                isinstance(a, ListObj) or isinstance(b, ListObj)):
            sa = a.segs if isinstance(a, ListObj) else self.iterate(a)
            sb = b.segs if isinstance(b, ListObj) else self.iterate(b)
            kind = a.kind if isinstance(a, ListObj) else b.kind
            if inplace and isinstance(a, ListObj) and not a.segs:
                pass
            if inplace and isinstance(a, ListObj):
                q = tuple(self.ctx[a.depth:])
                pc = self.since(a)
                for s in sb:
                    self.added_in_order(a, a.depth, s)
                    a.segs.append(Seg(q + s.q, b_and(pc, s.g), s.e))
                return a
            r = ListObj(kind, list(sa) + list(sb), len(self.ctx))
            if any(isinstance(x, ListObj) and x.order != ""
                   for x in (a, b)) or any(s.order != "" for s in [*sa, *sb]):
                r.order = None
            return r
        if isinstance(a, ListObj) and isinstance(b, ListObj):
            r = self.set_op(op, a, b)
            if r is not None:
                return r
        if isinstance(op, ast.Mult) and (isinstance(a, ListObj)
                                         or isinstance(b, ListObj)):
            l_, n = (a, b) if isinstance(a, ListObj) else (b, a)
            lt = self.term(l_)
            if lt.op == "tuple" and len(lt.args) == 1 and \
                    not is_num(self.term(n)):
                return ListObj("list", [
                    Seg(s.q, s.g, lt.args[0])
                    for s in self.range_segs(ZERO, self.term(n))],
                    len(self.ctx))
            if from_pandas(self.safe_term(n)):    # element by element
                return mul(self.safe_term(n), call(sym("numpy.array"), [lt]))
            return mk("repeat", lt, self.term(n))
        if isinstance(op, ast.BitOr) and isinstance(a, DictObj) and \
                isinstance(b, DictObj):
            return DictObj(a.segs + b.segs, len(self.ctx))
        a, b = self.safe_term(a), self.safe_term(b)
        return self.arith(op, a, b, node)

    def set_op(self, op, a, b):
        if isinstance(op, ast.Sub):
            out = []
            for s in a.segs:
                g = b_not(self.contains(s.e, b))
                out.append(Seg(s.q, b_and(s.g, g), s.e))
            return ListObj("set", out, len(self.ctx))
        if isinstance(op, (ast.BitAnd, ast.Mult)):
            return ListObj("set", [
                Seg(s.q, b_and(s.g, self.contains(s.e, b)), s.e)
                for s in a.segs], len(self.ctx))
        if isinstance(op, ast.BitOr):
            out = list(a.segs)
            for s in b.segs:
                out.append(Seg(s.q, b_and(s.g, b_not(
                    self.contains(s.e, a))), s.e))
            return ListObj("set", out, len(self.ctx))
        return None

    def arith(self, op, a, b, node):
        if isinstance(op, ast.Add):
            if is_str(a) or is_str(b) or a.op == "fstr" or b.op == "fstr":
                return self.fstr([a, b])
            if a.op == "tuple" and b.op == "tuple":
                return tup(a.args + b.args)
            if a.op == "aslist" and b.op in ("aslist", "comp", "tuple") or \
                    b.op == "aslist" and a.op in ("comp", "tuple"):
                return ListObj("list", [
                    s for x in (a, b) for s in self.iterate(x)],
                    len(self.ctx))
            return add(a, b)
        if isinstance(op, ast.Sub):
            return sub(a, b)
        if isinstance(op, ast.Mult):
            if a.op == "tuple" and is_num(b):
                return tup(a.args * int(b.args[1]))
            if a.op == "tuple" or a.op == "repeat":
                return mk("repeat", a, b)
            return mul(a, b)
        if isinstance(op, ast.Div):
            return div(a, b)
        if isinstance(op, ast.Pow):
            return power(a, b)
        if isinstance(op, ast.Mod) and is_str(a):
            return mk("strmod", a, b)
        if isinstance(op, ast.BitAnd):
            return b_and(a_truthy(a), a_truthy(b)) if is_guard(a) and \
                is_guard(b) else mk("binop", "BitAnd", a, b)
        if isinstance(op, ast.BitOr):
            return b_or(a_truthy(a), a_truthy(b)) if is_guard(a) and \
                is_guard(b) else mk("binop", "BitOr", a, b)
        if is_num(a) and is_num(b):
            try:
                x, y = a.args[1], b.args[1]
                if isinstance(op, ast.FloorDiv):
                    return const(x // y)
                if isinstance(op, ast.Mod):
                    return const(x % y)
            except ZeroDivisionError:
                pass
        return mk("binop", type(op).__name__, a, b)

    def e_UnaryOp(self, e, fr):
        v = self.ev(e.operand, fr)
        if isinstance(e.op, ast.Not):
            return b_not(self.truth(v))
        if self.tables and isinstance(v, self.tables.Column) and isinstance(
                e.op, ast.Invert):
            return self.tables.invert(v)
        t = self.safe_term(v)
        if isinstance(e.op, ast.USub):
            return neg(t)
        if isinstance(e.op, ast.UAdd):
            return t
        if is_guard(t):
            return b_not(t)
        return mk("invert", t)

    def e_BoolOp(self, e, fr):
        # short circuit: later operands are evaluated under the guard
        is_and = isinstance(e.op, ast.And)
        pc0 = self.pc
        vals, gs = [], []
        acc = TRUE if is_and else FALSE
        for x in e.values:
            self.pc = b_and(pc0, acc if is_and else b_not(acc))
            if self.pc is FALSE:
                break
            v = self.ev(x, fr)
            g = self.truth(v)
            vals.append(v)
            gs.append(g)
            acc = b_and(acc, g) if is_and else b_or(acc, g)
        self.pc = pc0
        if all(isinstance(v, T) and (is_guard(v) or v in (PYTRUE, PYFALSE))
               for v in vals):
            return acc
        out = vals[-1]
        for v, g in zip(reversed(vals[:-1]), reversed(gs[:-1])):
            out = self.merge(g, out, v) if is_and else self.merge(g, v, out)
        return out

    def e_IfExp(self, e, fr):
        c = b_simplify(self.truth(self.ev(e.test, fr)), self.pc)
        if c is TRUE:
            return self.ev(e.body, fr)
        if c is FALSE:
            return self.ev(e.orelse, fr)
        pc0 = self.pc
        self.pc = b_and(pc0, c)
        a = self.kept_iterator(e.body, self.ev(e.body, fr), fr)
        self.pc = b_and(pc0, b_not(c))
        b = self.kept_iterator(e.orelse, self.ev(e.orelse, fr), fr)
        self.pc = pc0
        if any(isinstance(x, ListObj) and x.kind == "gen" for x in (a, b)):
            return CasesV([(c, a), (b_not(c), b)])      # may be used up
        if a is not b and isinstance(a, (ListObj, DictObj)) and isinstance(
                b, (ListObj, DictObj)) and isinstance(
                e.body, ast.Name) and isinstance(e.orelse, ast.Name):
            return CasesV([(c, a), (b_not(c), b)])      # not copies
        return self.merge(c, a, b)

    def e_Compare(self, e, fr):
        left = self.ev(e.left, fr)
        acc = TRUE
        for op, r in zip(e.ops, e.comparators):
            right = self.ev(r, fr)
            c = self.compare(op, left, right, e)
            if len(e.ops) == 1:
                return c
            acc = b_and(acc, self.truth(c))
            left = right
        return acc

    def compare(self, op, a, b, node):
        for x, y, at in ((a, b, 0), (b, a, 1)):
            nm = COMPARISONS.get(type(op))
            m = self.special(x, f"__{nm[at]}__") if nm else None
            if m is not None:
                return self.truth(self.do_call(m, [y], {}, node, None))
            if nm and isinstance(x, NewObj):
                raise Unsupported("comparison of objects")
        if self.tables and any(isinstance(x, self.tables.Column)
                               for x in (a, b)) and not isinstance(
                op, (ast.In, ast.NotIn, ast.Is, ast.IsNot)):
            return self.tables.compare(self, op, a, b, node)
        if isinstance(op, (ast.In, ast.NotIn)):
            g = self.contains(a, b)
            return g if isinstance(op, ast.In) else b_not(g)
        if isinstance(op, (ast.Is, ast.IsNot)):
            g = self.is_(a, b)
            return g if isinstance(op, ast.Is) else b_not(g)
        if isinstance(op, (ast.Eq, ast.NotEq)) and all(
                isinstance(u, ListObj) and u.kind == "set" and all(
                    not s.q for s in u.segs) for u in (a, b)):
            g = b_and(*[b_or(b_not(s.g), *[
                b_and(r.g, self.truth(self.compare(
                    ast.Eq(), s.e, r.e, node))) for r in v.segs])
                for u, v in ((a, b), (b, a)) for s in u.segs])
            return g if isinstance(op, ast.Eq) else b_not(g)
        x, y = self.safe_term(a), self.safe_term(b)
        if NAN in (x, y):       # nan compares unequal to everything
            return TRUE if isinstance(op, ast.NotEq) else FALSE
        if isinstance(op, (ast.Eq, ast.NotEq)) and all(
                is_guard(u) or u in (PYTRUE, PYFALSE) for u in (x, y)):
            x, y = self.truth(x), self.truth(y)
            g = b_or(b_and(x, y), b_and(b_not(x), b_not(y)))
            return g if isinstance(op, ast.Eq) else b_not(g)
        if isinstance(op, ast.Eq):
            if "cases" in (x.op, y.op) and not (is_str(x) or is_str(y)):
                xs = x.args[0] if x.op == "cases" else ((TRUE, x),)
                ys = y.args[0] if y.op == "cases" else ((TRUE, y),)
                return cases([(b_and(g, h), a_eq(u, w)) for g, u in xs
                              for h, w in ys])
            return a_eq(x, y)
        if isinstance(op, ast.NotEq):
            return b_not(a_eq(x, y))
        for u in (x, y):
            if is_const(u) and u.args[0] == "inf":
                other = y if u is x else x
                if is_const(other) and other.args[0] == "inf":
                    f = {ast.Lt: lambda p, q: p < q,
                         ast.LtE: lambda p, q: p <= q,
                         ast.Gt: lambda p, q: p > q,
                         ast.GtE: lambda p, q: p >= q}[type(op)]
                    return TRUE if f(pyval(x), pyval(y)) else FALSE
        if isinstance(op, ast.Lt):
            return self.below(sub(x, y))
        if isinstance(op, ast.Gt):
            return self.below(sub(y, x))
        if isinstance(op, ast.LtE):
            return b_not(self.below(sub(y, x)))
        if isinstance(op, ast.GtE):
            return b_not(self.below(sub(x, y)))
        return lit(mk("truthy", self.note_unknown("comparison", node)))

    def below(self, p, depth=0):
        """p < 0, where p may contain the least or greatest of values"""
        p = as_term(p)
        if p.op != "poly" and not _extreme(p) or depth > 3 or \
                _of_model(p):
            return a_lt0(p)
        for (q, g, at), c in as_poly(p).terms.items():
            if q or g is not TRUE or len(at) != 1 or at[0][1] != 1 or \
                    not _extreme(at[0][0]):
                continue
            a = at[0][0]
            every = (a.args[0].args[0] == "max") == (c > 0)
            if len(a.args[1]) > 1:
                out = [self.below(add(p, mul(const(c), sub(x, a))),
                                  depth + 1) for x in a.args[1]]
                return b_and(*out) if every else b_or(*out)
            if a.args[1][0].op != "comp" and not self.plain_seq(
                    a.args[1][0]):
                continue
            out = []
            for s in self.iterate(a.args[1][0]):
                f = self.below(add(p, mul(const(c), sub(
                    self.term(s.e), a))), depth + 1)
                out.append(b_not(self.exists(s.q, b_and(s.g, b_not(f))))
                           if every else self.exists(s.q, b_and(s.g, f)))
            return b_and(*out) if every else b_or(*out)
        return a_lt0(p)

    def plain_seq(self, t):
        return t.op == "sym" or t.op == "attr" and self.plain_seq(t.args[0])

    def is_(self, a, b):
        if isinstance(a, NewObj) and isinstance(b, NewObj):
            return TRUE if a is b else FALSE
        for x, y in ((a, b), (b, a)):
            if isinstance(x, CasesV):
                return b_or(*[b_and(g, self.is_(v, y)) for g, v in x.items])
            if not isinstance(x, T) and isinstance(y, T) and y is NONE:
                return FALSE
        return a_is(self.safe_term(a), self.safe_term(b))

    def contains(self, x, coll):
        m = self.special(coll, "__contains__")
        if m is not None:
            return self.truth(self.do_call(m, [x], {}, None, None))
        if isinstance(coll, CasesV):
            return b_or(*[b_and(g, self.contains(x, v))
                          for g, v in coll.items])
        xt = self.safe_term(x)
        if isinstance(coll, (ListObj, DictObj)):
            self.looked_up(coll, xt)
            out = [self.met_before(coll, xt)]
            segs = coll.segs
            if isinstance(coll, ListObj) and coll.kind == "gen":
                segs = self.iterate(coll)
            for s in segs:
                if isinstance(coll, DictObj):
                    if s.additive:
                        continue
                    s = Seg(s.q, s.g, s.k)
                s = Seg(s.q, met(s.g, s.e), s.e)
                s = self.refresh(s)
                e = self.safe_term(s.e)
                for h, e in e.args[0] if e.op == "cases" else ((TRUE, e),):
                    m, g = self.match_elem(s.q, b_and(s.g, h), e, xt)
                    if m is not None:
                        out.append(g)
            return b_or(*out)
        t = self.strip_iter(self.safe_term(coll))
        if t.op == "tuple":
            return b_or(*[a_eq(xt, y) for y in t.args])
        if t.op == "comp":
            return self.contains(x, ListObj("list", [
                Seg(q, g, e) for q, g, e in t.args[1]]))
        if t.op == "cases":
            return b_or(*[b_and(g, self.contains(x, v))
                          for g, v in t.args[0]])
        if t.op == "binop" and t.args[0] in ("BitOr", "BitAnd", "Sub"):
            a, b = (self.contains(x, y) for y in t.args[1:])
            return b_or(a, b) if t.args[0] == "BitOr" else b_and(
                a, b if t.args[0] == "BitAnd" else b_not(b))
        if xt.op == "cases":
            return b_or(*[b_and(g, self.contains(v, t))
                          for g, v in xt.args[0]])
        if t.op == "call" and t.args[0].op == "attr" and not t.args[1] and \
                t.args[0].args[1] == "values" and xt.op == "idx" and len(
                xt.args[1]) == 1:
            b = t.args[0].args[0]
            c = xt.args[0]
            if c is b:
                return self.contains(xt.args[1][0], b)
            if b.op == c.op == "attr" and b.args[0] is c.args[0] and \
                    DISJOINT.get(b.args[1]) == c.args[1] and self.drawn_from(
                    xt.args[1][0], c):
                return FALSE
        if t.op == "call" and t.args[0].op == "attr" and not t.args[2] and \
                t.args[0].args[1] in ("union", "keys", "intersection"):
            f = b_and if t.args[0].args[1] == "intersection" else b_or
            return f(*[self.contains(x, y)
                       for y in (t.args[0].args[0],) + t.args[1]])
        # an element drawn from the very domain
        if self.drawn_from(xt, t):
            return TRUE
        return self.in_atom(xt, t)

    def in_atom(self, xt, t):
        # no bus is both input and output of the same offset converter
        # (stated assumption, see DESIGN.md)
        if t.op == "attr" and t.args[1] in DISJOINT and self.drawn_from(
                xt, tm.attr(t.args[0], DISJOINT[t.args[1]])):
            return FALSE
        return lit(mk("in", xt, t))

    def drawn_from(self, xt, dom):
        comps = xt.args if xt.op == "tuple" else (xt,)
        if xt.op == "first" and len(xt.args[0].args[1]) == 1:
            q = xt.args[0].args[1][0][0]
            return len(q) == 1 and q[0][2] == 1 and q[0][1] is dom
        if not comps or any(c.op != "bv" for c in comps):
            return False
        i = comps[0].args[0]
        if any(c.args[0] != i or c.args[1] != n
               for n, c in enumerate(comps)):
            return False
        for q in self.ctx:
            if q[0] == i:
                return q[1] is dom and q[2] == len(comps)
        return False

    def match_elem(self, q, g, e, xt):
        """membership of xt in {e | q, g}"""
        if e is xt:
            return {}, g
        m, g2 = self.match_key(q, g, e, xt)
        if m is None:
            return None, None
        # every quantifier must be determined by the match
        left = []
        conds = []
        for (i, dom, ar, so) in q:
            got = [c for c in m if c.args[0] == i]
            if not got:
                left.append((i, dom, ar, so))
                continue
            vals = [m[c] for c in sorted(got, key=lambda c: c.args[1])]
            x = vals[0] if ar == 1 else tup(vals)
            if not self.drawn_from(x, dom):
                dom = subst(dom, m)
                conds.append(self.contains(x, dom) if dom.op == "comp"
                             else self.in_atom(x, dom))
        g2 = b_and(g2, *conds)
        if left:
            return m, self.exists(tuple(
                (i, subst(d, m), a, s) for i, d, a, s in left), g2)
        return m, g2

    def e_Lambda(self, e, fr):
        return self.with_defaults(Closure(e, fr, fr.module, fr.cls), fr)

    def with_defaults(self, c, fr):
        a = c.node.args
        ps = (a.posonlyargs + a.args)[::-1]
        ds = [(p.arg, d) for p, d in zip(ps, a.defaults[::-1])] + [
            (p.arg, d) for p, d in zip(a.kwonlyargs, a.kw_defaults)
            if d is not None]
        if ds:
            c.dvals = {n: self.ev(d, fr) for n, d in ds}
        return c

    def e_ListComp(self, e, fr):
        return self.comp("list", e, fr)

    def e_SetComp(self, e, fr):
        return self.comp("set", e, fr)

    def e_GeneratorExp(self, e, fr):
        return self.comp("gen", e, fr)

    def kept_iterator(self, node, v, fr):
        """an iterator that is given a name can only be used once"""
        if not isinstance(node, ast.Call) or isinstance(v, CasesV):
            return v
        f = node.func
        if isinstance(f, ast.Name):
            n, f = f.id, self.lookup(f.id, fr, quiet=True)
            if f is None and n in BUILTINS:
                f = ModRef("builtins." + n)
        elif isinstance(f, ast.Attribute) and isinstance(f.value, ast.Name):
            f = self.lookup(f.value.id, fr, quiet=True)
            f = ModRef(f.name + "." + node.func.attr) if isinstance(
                f, ModRef) else None
        if not isinstance(f, ModRef) or f.name not in ITERATORS:
            return v
        return self.used_once(v)

    def used_once(self, v):
        """the values of `v`, to be used only once"""
        if isinstance(v, ListObj):
            return v if v.kind == "gen" else ordered(ListObj(
                "gen", v.segs, len(self.ctx)), v.order)
        if isinstance(v, T) and v.op not in ("cases", "unknown"):
            return ListObj("gen", self.iterate(v), len(self.ctx))
        return v

    def comp(self, kind, e, fr):
        out = []

        def body(f, q, g):
            v = self.ev(e.elt, f)
            out.append(Seg(q, g, v))
        seen = self.comp_run(e.generators, fr, body)
        r = ListObj(kind, out, len(self.ctx))
        if seen and kind != "set":
            same = len(e.generators) == 1 and len(seen) == 1
            o, = seen if same else (None,)
            r.order = o if same and (o == "back" or ast.dump(
                e.elt).replace("Load", "Store") == ast.dump(
                e.generators[0].target)) else None
        return r

    def e_DictComp(self, e, fr):
        out = []

        def body(f, q, g):
            k = self.term(self.ev(e.key, f))
            v = self.kept_iterator(e.value, self.ev(e.value, f), f)
            self.held_by_all(v, q)
            out.append(Seg(q, g, v, k=k))
        self.comp_run(e.generators, fr, body)
        return DictObj(out, len(self.ctx))

    def held_by_all(self, v, q):
        """a list made before the loop is the same one for all keys"""
        if q and isinstance(v, ListObj) and v.kind in ("list", "set") and \
                v.alias is None and v.depth <= len(self.ctx) - len(q):
            v.shared = True

    def comp_run(self, gens, fr, body):
        f = Frame(fr.module, parent=fr, fn=fr.fn, cls=fr.cls, selfv=fr.selfv)
        f.depth0, f.entry_pc = len(self.ctx), self.pc
        n0 = len(self.ctx)
        pc0 = self.pc
        orders = set()

        def rec(k, g):
            if k == len(gens):
                body(f, tuple(self.ctx[n0:]), g)
                return
            ge = gens[k]
            n = len(ge.target.elts) if isinstance(
                ge.target, (ast.Tuple, ast.List)) else None
            for s in self.iterate(self.ev(ge.iter, f), n):
                d = len(self.ctx)
                if s.order != "":
                    orders.add(s.order)
                self.ctx.extend(s.q)
                heap0 = dict(self.heap)
                g2 = b_and(g, s.g)
                pc1 = self.pc
                self.pc = b_and(pc1, s.g)
                self.assign(ge.target, s.e, f)
                for c in ge.ifs:
                    x = self.truth(self.ev(c, f))
                    g2 = b_and(g2, x)
                    self.pc = b_and(self.pc, x)
                if g2 is not FALSE and self.pc is not FALSE:
                    rec(k + 1, g2)
                self.pc = pc1
                del self.ctx[d:]
                ids = {q[0] for q in s.q}
                if not ids:
                    continue
                # what is stored at the elements
                for key, v in list(self.heap.items()):
                    if heap0.get(key) is not v and key[0].free & ids:
                        self.patterns.append(
                            (key[1], s.q, s.g, key[0], v))
                        if key in heap0:
                            self.heap[key] = heap0[key]
                        else:
                            del self.heap[key]
        rec(0, TRUE)
        self.pc = pc0
        return orders

    def e_Starred(self, e, fr):
        return mk("star", self.term(self.ev(e.value, fr)))

    def e_Await(self, e, fr):
        return self.ev(e.value, fr)

    def e_Yield(self, e, fr):
        self.do_yield(self.ev(e.value, fr) if e.value else NONE, fr)
        return NONE

    def e_Slice(self, e, fr):
        return self.ev_slice(e, fr)

    # ------------------------------------------------------------ call expr
    def e_Call(self, e, fr):
        if isinstance(e.func, ast.Name) and e.func.id == "super":
            return SuperRef(fr.cls, fr.selfv or self.first_self(fr))
        f = self.ev(e.func, fr)
        args = []
        for a in e.args:
            if isinstance(a, ast.Starred):
                v = self.ev(a.value, fr)
                u = self.unpack_any(v)
                if u is None:
                    args.append(mk("star", self.term(v)))
                else:
                    args.extend(u)
            else:
                args.append(self.ev(a, fr))
        kw = {}
        for k in e.keywords:
            if k.arg is None:
                v = self.ev(k.value, fr)
                if isinstance(v, DictObj) and all(
                        not s.q and is_str(s.k) for s in v.segs):
                    for s in v.segs:
                        kw[s.k.args[1]] = s.e
                else:
                    kw["**"] = self.spread(self.term(v))
            else:
                kw[k.arg] = self.ev(k.value, fr)
        self.loc = (fr.module.path, e.lineno)
        if self.pc is FALSE:
            return UNDEF
        return self.do_call(f, args, kw, e, fr)

    def first_self(self, fr):
        f = fr
        while f is not None:
            if f.selfv is not None:
                return f.selfv
            f = f.parent
        return fr.vars.get("self")

    def do_call(self, f, args, kw, node, fr):
        if isinstance(f, CasesV):
            out = None
            for g, x in f.items:
                pc = self.pc
                self.pc = b_and(pc, g)
                if self.pc is FALSE:
                    self.pc = pc
                    continue
                v = self.do_call(x, args, kw, node, fr)
                self.pc = pc
                out = v if out is None else self.merge(g, v, out)
            return out
        if isinstance(f, Closure):
            if f.frame is None and f.selfv is None and f.name in self.opaque:
                args, kw = list(args), dict(kw)
                for a in f.node.args.args[len(args):]:
                    if a.arg not in kw:
                        break
                    args.append(kw.pop(a.arg))
                r = self.opaque_seq(
                    f.name, [self.safe_term(a) for a in args],
                    [(k, self.safe_term(v)) for k, v in kw.items()])
                return self.opaque_result(f.name, r)
            if f.selfv is not None and f.name in self.opaque_methods:
                return call(sym(f.name), [self.safe_term(a) for a in
                                          [f.selfv] + list(args)],
                            [(k, self.safe_term(v)) for k, v in kw.items()])
            return self.call_closure(f, args, kw, node)
        if isinstance(f, ClassRef):
            return self.construct(f, args, kw, node)
        if isinstance(f, Value):
            return f.v(*args, **kw) if callable(f.v) else f.v
        if isinstance(f, TupleType):
            return self.make_tuple(f, args, kw)
        m = self.special(f, "__call__")
        if m is not None:
            return self.do_call(m, args, kw, node, fr)
        if isinstance(f, ModRef):
            return self.call_ext(f.name, args, kw, node, fr)
        if isinstance(f, TMethod):
            return self.call_method(f.base, f.name, args, kw, node, fr)
        if isinstance(f, T) and f.op == "cases":
            return self.do_call(CasesV(f.args[0]), args, kw, node, fr)
        if isinstance(f, T) and f.op == "attr":
            return self.call_method(f.args[0], f.args[1], args, kw, node, fr,
                                    f)
        if isinstance(f, T) and f.op == "sym" and f.args[0].startswith(
                "spec:"):
            return self.intrinsic(f.args[0][5:], args, kw, node)
        t = self.safe_term(f)
        return self.opaque_call(t, args, kw)

    def opaque_seq(self, name, args, kw):
        if args and args[0].op == "cases":
            return cases([(g, self.opaque_seq(name, [v] + args[1:], kw))
                          for g, v in args[0].args[0]
                          if b_and(g, self.pc) is not FALSE])
        if name == "sequence" and args and args[0] is NONE:
            return NONE
        if name == "sequence" and len(args) == 2:
            args, kw = args[:1], list(kw) + [("length", args[1])]
        return call(sym(name), args, kw)

    def opaque_result(self, name, r):
        if name == "valid_sequence":
            return lit(mk("truthy", r))
        return r

    def opaque_call(self, ft, args, kw):
        if not args and kw and ft.op == "sym" and FIRST.get(
                ft.args[0]) in kw:
            kw = dict(kw)
            args = [kw.pop(FIRST[ft.args[0]])]
        if not args and not kw and ft.op == "attr" and ft.args[1] in (
                "max", "min") and ft.args[0].op == "attr" and \
                ft.args[0].args[1] == "year":
            # the last year is the year of the last time
            return tm.attr(self.opaque_call(tm.attr(
                ft.args[0].args[0], ft.args[1]), args, kw), "year")
        r = call(ft, [self.safe_term(a) for a in args],
                 [(k, self.safe_term(v)) for k, v in kw.items()])
        self.emit("call", tm.show(ft), r)
        return r

    # ------------------------------------------------------ helper classes
    def external_bases(self, cls):
        out = []
        for b in cls.node.bases:
            n = b.id if isinstance(b, ast.Name) else getattr(b, "attr", "?")
            out.append(n)
        for b in self.bases(cls):
            if b.name in out:
                out.remove(b.name)
            out += self.external_bases(b)
        return out

    def family(self, cls):
        out = [cls]
        for b in self.bases(cls):
            out += self.family(b)
        return out

    def decorators(self, cls):
        out = []
        for d in cls.node.decorator_list:
            f = d.func if isinstance(d, ast.Call) else d
            out.append(f.id if isinstance(f, ast.Name)
                       else getattr(f, "attr", "?"))
        return out

    def fields_of(self, cls):
        """(name, default expression or None, class) of annotated names"""
        out = {}
        for c in reversed(self.family(cls)):
            for s in c.node.body:
                if isinstance(s, ast.AnnAssign) and isinstance(
                        s.target, ast.Name) and "ClassVar" not in \
                        ast.unparse(s.annotation):
                    out[s.target.id] = (s.value, c)
        return [(n, d, c) for n, (d, c) in out.items()]

    def helper(self, cls):
        """"object", "dataclass", "tuple": how to make objects of cls"""
        if any(c.name in self.known for c in self.family(cls)):
            return None
        ext = set(self.external_bases(cls))
        if "NamedTuple" in ext:
            return "tuple" if ext == {"NamedTuple"} else None
        if not ext <= {"object", "ABC", "Protocol", "Generic"}:
            return None
        decs = {d for c in self.family(cls) for d in self.decorators(c)}
        if not decs <= {"dataclass", "total_ordering", "final"} or \
                self.class_lookup(cls, "__new__") or any(
                c.node.keywords for c in self.family(cls)):
            return None
        if "dataclass" in decs:
            return "dataclass"
        return "object"

    def ctx_ids(self):
        return tuple(q[0] for q in self.ctx)

    def make_object(self, cls, how, args, kw, node):
        obj = NewObj(cls, cls.name, self.ctx_ids())
        self.helpers[cls.name] = cls
        init = self.class_lookup(cls, "__init__")
        if init is None and how == "dataclass":
            args, kw = list(args), dict(kw)
            for n, d, c in self.fields_of(cls):
                fr = Frame(c.module, parent=c.frame)
                fr.depth0, fr.entry_pc = 0, TRUE
                made = isinstance(d, ast.Call) and (
                    d.func.id if isinstance(d.func, ast.Name)
                    else getattr(d.func, "attr", "")) == "field"
                opts = {k.arg: k.value for k in d.keywords} if made else {}
                init_ = opts.get("init")
                if not (init_ is not None and init_.value is False):
                    if n in kw:
                        self.heap[(obj.sym, n)] = kw.pop(n)
                        continue
                    if args:
                        self.heap[(obj.sym, n)] = args.pop(0)
                        continue
                if made and "default_factory" in opts:
                    self.heap[(obj.sym, n)] = self.do_call(self.ev(
                        opts["default_factory"], fr), [], {}, node, fr)
                elif made and "default" in opts:
                    self.heap[(obj.sym, n)] = self.ev(opts["default"], fr)
                elif d is not None and not made:
                    self.heap[(obj.sym, n)] = self.ev(d, fr)
            if args or kw:
                raise Unsupported("arguments of " + cls.name)
            post = self.class_attr(cls, "__post_init__", obj)
            if post is not None:
                self.do_call(post, [], {}, node, None)
        elif init is not None:
            c = Closure(init[2], init[1].frame, init[1].module, init[1], obj)
            self.do_call(c, args, kw, node, None)
        elif args or kw:
            raise Unsupported("arguments of " + cls.name)
        return UNDEF if self.pc is FALSE else obj

    def make_tuple(self, tt, args, kw):
        vals, args, kw = [], list(args), dict(kw)
        nd = len(tt.fields) - len(tt.defaults)
        for k, n in enumerate(tt.fields):
            if args:
                vals.append(args.pop(0))
            elif n in kw:
                vals.append(kw.pop(n))
            elif k >= nd:
                vals.append(tt.defaults[k - nd])
            else:
                raise Unsupported("arguments of " + tt.name)
        if args or kw:
            raise Unsupported("arguments of " + tt.name)
        return self.tuple_of(vals)

    def b_namedtuple(self, args, kw):
        args = list(args) + [kw[k] for k in ("field_names",) if k in kw]
        fs = args[1]
        if isinstance(fs, T) and is_str(fs):
            fs = fs.args[1].replace(",", " ").split()
        else:
            fs = self.unpack_any(fs)
            fs = [self.unpack_any(x)[0] if self.unpack_any(x) else x
                  for x in fs]
            fs = [pyval(self.term(x)) for x in fs]
        ds = self.unpack_any(kw["defaults"]) if "defaults" in kw else []
        tt = TupleType(pyval(self.term(args[0])), fs, ds)
        self.tupletypes.append(tt)
        return tt

    def tuple_of(self, vals):
        if all(isinstance(x, T) for x in vals):
            return tup(vals)
        return ListObj("tuple", [Seg((), TRUE, x) for x in vals],
                       len(self.ctx))

    def tuple_type(self, cls):
        for tt in self.tupletypes:
            if tt.cls is not None and tt.cls.node is cls.node:
                return tt
        fr = Frame(cls.module, parent=cls.frame)
        fr.depth0, fr.entry_pc = 0, TRUE
        fs = self.fields_of(cls)
        tt = TupleType(cls.name, [n for n, _, _ in fs],
                       [self.ev(d, fr) for _, d, _ in fs if d is not None],
                       cls)
        self.tupletypes.append(tt)
        return tt

    def tuple_attr(self, base, name):
        """attribute of a value of a namedtuple"""
        if not self.tupletypes:
            return None
        if isinstance(base, ListObj) and base.kind == "tuple" and all(
                not s.q and s.g is TRUE for s in base.segs):
            n = len(base.segs)
        elif isinstance(base, T) and base.op == "tuple":
            n = len(base.args)
        elif isinstance(base, T) and base.op in ("bv", "idx") and len(
                {tuple(t.fields) for t in self.tupletypes
                 if name in t.fields}) == 1:
            # an element of what was collected before
            return None
        else:
            return None
        tts = [t for t in self.tupletypes if len(t.fields) == n]
        items = self.unpack_any(base)
        at = {t.fields.index(name) for t in tts if name in t.fields}
        if len(at) == 1:
            return items[at.pop()]
        if at:
            raise Unsupported("field of a tuple")
        if name == "_asdict" and len({tuple(t.fields) for t in tts}) == 1:
            return Value(DictObj([Seg((), TRUE, x, k=const(f)) for f, x in
                                  zip(tts[0].fields, items)],
                                 len(self.ctx)))
        if name == "_replace" and len({tuple(t.fields) for t in tts}) == 1:
            return Value(lambda **kw: self.tuple_of([
                kw.get(f, x) for f, x in zip(tts[0].fields, items)]))
        ms = [t for t in tts if t.cls is not None
              and self.class_lookup(t.cls, name)]
        if len(ms) == 1:
            return self.class_attr(ms[0].cls, name, base)
        if ms:
            raise Unsupported("method of a tuple")
        return None

    def field(self, obj, name):
        v = self.heap.get((obj.sym, name), UNDEF)
        if v is not UNDEF:
            return v
        if name == "__class__" and obj.cls is not None:
            return obj.cls
        if name == "__dict__":
            return DictObj([
                Seg((), TRUE, x, k=const(n)) for (b, n), x in
                self.heap.items() if b is obj.sym and x is not UNDEF],
                len(self.ctx))
        if obj.cls is not None:
            v = self.class_attr(obj.cls, name, obj)
            if v is not None:
                return v
            g = self.class_attr(obj.cls, "__getattr__", obj)
            if g is not None:
                return self.do_call(g, [const(name)], {}, None, None)
        raise Unsupported(f"attribute {name} of {obj.name}")

    def record_attr(self, t, name):
        for n, x in t.args[1]:
            if n == name:
                return x
        cls = self.helpers.get(t.args[0])
        if cls is not None:
            v = self.class_attr(cls, name, t)
            if v is not None:
                return v
        raise Unsupported(f"attribute {name} of {t.args[0]}")

    def setter(self, cls, name):
        for c in self.family(cls) if cls is not None else ():
            for s in c.node.body:
                if isinstance(s, ast.FunctionDef) and s.name == name and any(
                        isinstance(d, ast.Attribute) and d.attr == "setter"
                        for d in s.decorator_list):
                    return Closure(s, c.frame, c.module, c)
        return None

    def special(self, v, name):
        """the method that an operation on a helper object calls"""
        if isinstance(v, NewObj):
            cls = v.cls
        elif isinstance(v, T) and v.op == "record":
            cls = self.helpers.get(v.args[0])
        else:
            return None
        return None if cls is None else self.class_attr(cls, name, v)

    def construct(self, cref, args, kw, node):
        how = self.helper(cref)
        if how == "tuple":
            return self.make_tuple(self.tuple_type(cref), args, kw)
        if how is not None:
            return self.make_object(cref, how, args, kw, node)
        r = call(mk("cls", cref.name), [self.safe_term(a) for a in args],
                 [(k, self.safe_term(v)) for k, v in kw.items()])
        self.emit("new", cref.name, r)
        return r

    def intrinsic(self, name, args, kw, node):
        if name == "require":
            nm = pyval(self.term(args[1])) if len(args) > 1 else "spec"
            self.add_constraint(tm.attr(sym("SPEC"), nm), args[0])
            return NONE
        if name == "form":
            nm = pyval(self.term(args[0]))
            self.forms_seen.add(nm)
            return PYTRUE if nm in self.forms else PYFALSE
        if name == "integer":
            self.emit("integer", "integrality", self.term(args[0]))
            return NONE
        if name == "binary":
            self.emit_binary(self.term(args[0]), self.pc)
            return NONE
        if name == "variable":
            self.emit("var", "spec", (None, self.term(args[0]), None))
            return NONE
        if name == "objective":
            nm = pyval(self.term(args[1])) if len(args) > 1 else "objective"
            self.emit("objective", nm, (None, self.term(args[0]), None))
            return NONE
        if name == "expression":
            n = self.term(args[0])
            self.emit("expression", pyval(n) if is_str(n)
                      else "dyn:" + tm.show(n),
                      (None, self.term(args[1]), None))
            self.heap[(M, pyval(n) if is_str(n) else n)] = args[1]
            return NONE
        if name == "reject":
            # condition under which construction must raise
            g = self.truth(args[0])
            nm = pyval(self.term(args[1])) if len(args) > 1 else "*"
            self.emit("raise", nm, NONE, g=b_and(self.pc, g))
            self.pc = b_and(self.pc, b_not(g))
            return NONE
        if name == "announce":
            # condition under which a warning must be given
            self.emit("warn", pyval(self.term(args[1])), NONE,
                      g=b_and(self.pc, self.truth(args[0])))
            return NONE
        if name == "store":
            nm = pyval(self.term(args[0]))
            self.emit("store", nm, (sym("SELF"), self.safe_term(args[1])))
            self.heap[(sym("SELF"), nm)] = args[1]
            return NONE
        if name == "opaque":
            return call(sym(pyval(self.term(args[0]))),
                        [self.term(a) for a in args[1:]],
                        [(k, self.term(v)) for k, v in kw.items()])
        if name == "cls":
            return mk("cls", pyval(self.term(args[0])))
        if name == "symbol":
            n = [pyval(self.term(a)) for a in args]
            return sym(n[0]) if len(n) == 1 else bv(n[0], 0, "nat:" + n[1])
        raise Unsupported("intrinsic " + name)

    # ------------------------------------------------------------ externals
    def announced(self, args, kw):
        """category of a warning"""
        v = kw.get("category", args[1] if len(args) > 1 else None)
        if v is None or v is NONE:
            v = args[0] if args else kw.get("message")
        try:
            t = self.term(v)
        except Unsupported:
            return "?"
        if t.op == "call":
            t = t.args[0]
        return tm.show(t).split(".")[-1] if t.op in ("sym", "attr", "cls") \
            and "Warning" in tm.show(t) else "UserWarning"

    def call_ext(self, name, args, kw, node, fr):
        if name == "warnings.warn":
            self.emit("warn", self.announced(args, kw), NONE)
            return NONE
        if name.startswith("pyomo:"):
            k = name[6:]
            if k in PYOMO_COMPONENTS:
                return Component(k, args, kw, self.loc)
            if k in ("quicksum",):
                return self.b_sum(args, kw, node)
            if k == "inequality":
                a = [self.term(x) for x in args]
                if len(a) == 3:
                    return tup(a)
                return tup([self.term(kw.get("lower", NONE)),
                            self.term(kw.get("body", NONE)),
                            self.term(kw.get("upper", NONE))])
            if k == "value":
                return args[0]
        if name in ("numpy.isfinite", "numpy.isinf", "numpy.isnan"):
            name = "math" + name[5:]
        if self.tables and name in ("pandas.DataFrame",
                                    "pandas.DataFrame.from_records"):
            t = self.tables.make(self, args, kw, node)
            if t is not None:
                return t
        if self.tables and name in ("pandas.isna", "pandas.isnull",
                                    "pandas.notna", "pandas.notnull"):
            g = self.tables.isna(self.safe_term(args[0]))
            return g if name[7] == "i" else b_not(g)
        if name == "inspect.isbuiltin" and len(args) == 1:
            x = self.safe_term(args[0])
            if x.op == "cases":
                return cases([(g, self.call_ext(name, [v], kw, node, fr))
                              for g, v in x.args[0]])
            # data, unless the name of the argument is one of a builtin
            if x.op == "const" or x.op == "sym" and not hasattr(
                    builtins, x.args[0].split(":")[-1]):
                return PYFALSE
        if name == "math.isfinite" and len(args) == 1 and isinstance(
                args[0], T) and is_num(args[0]):
            return TRUE
        short = name.split(".")[-1]
        if name.startswith("builtins."):
            m = getattr(self, "b_" + short, None)
            if m is not None:
                return m(args, kw, node) if short not in (
                    "getattr", "setattr", "hasattr") else m(args, kw, node,
                                                            fr)
            return self.opaque_call(sym(short), args, kw)
        if name == "itertools.pairwise" and len(args) == 1 and not kw:
            v = self._aslist("list", args)
            return self.b_zip([v, self.subscript(v, mk(
                "slice", const(1), NONE, NONE), node)], {}, node)
        if name == "itertools.product":
            out = []
            for q, vals, g in [(q, v, g) for q, v, g in
                               self.product_vals(args)]:
                out.append(Seg(q, g, self.tupv(vals)))
            return ListObj("list", out, len(self.ctx))
        if name == "itertools.repeat" and len(args) == 2 and not kw and \
                isinstance(args[0], T):
            return mk("repeat", tup([args[0]]), self.term(args[1]))
        if name in ("itertools.chain", "itertools.chain.from_iterable"):
            src = args
            if name.endswith("from_iterable"):
                out = []
                for s in self.iterate(args[0]):
                    for s2 in self.iterate(s.e):
                        out.append(Seg(s.q + s2.q, b_and(s.g, s2.g), s2.e))
                return ListObj("list", out, len(self.ctx))
            out = []
            for a in src:
                if isinstance(a, T) and a.op == "star":
                    for s in self.iterate(a.args[0]):
                        for s2 in self.iterate(s.e):
                            out.append(Seg(s.q + s2.q, b_and(s.g, s2.g),
                                           s2.e))
                else:
                    out.extend(self.iterate(a))
            return ListObj("list", out, len(self.ctx))
        r = self.in_terms_of_the_language(name, args, kw, node)
        if r is not None:
            return r
        if name.endswith("economics.annuity"):
            # annuity is proportional to the capital expenditure
            names = ["capex", "n", "wacc", "u", "cost_decrease"]
            b = dict(zip(names, args))
            b.update(kw)
            cap = self.term(b.pop("capex", ONE))
            t = call(sym("annuity_factor"), [],
                     sorted((k, self.term(v)) for k, v in b.items()))
            return mul(cap, t)
        if name in ("collections.namedtuple", "typing.NamedTuple"):
            return self.b_namedtuple(args, kw)
        if name == "types.SimpleNamespace" and not args:
            obj = NewObj(None, "SimpleNamespace", self.ctx_ids())
            for k, v in kw.items():
                self.heap[(obj.sym, k)] = v
            return obj
        if name == "dataclasses.replace" and len(args) == 1 and isinstance(
                args[0], NewObj) and args[0].cls is not None:
            old = args[0]
            return self.make_object(old.cls, "dataclass", [], {
                **{n: self.field(old, n)
                   for n, _, _ in self.fields_of(old.cls)}, **kw}, node)
        if name in ("dataclasses.astuple", "dataclasses.asdict") and isinstance(
                args[0], NewObj) and args[0].cls is not None:
            fs = [(n, self.field(args[0], n))
                  for n, _, _ in self.fields_of(args[0].cls)]
            if name.endswith("astuple"):
                return self.tuple_of([x for _, x in fs])
            return DictObj([Seg((), TRUE, x, k=const(n)) for n, x in fs],
                           len(self.ctx))
        if name == "functools.partial":
            if args and isinstance(args[0], Closure):
                return args[0].partial(args[1:], kw)
            if isinstance(args[0], (ModRef, ClassRef, TMethod)) and not any(
                    isinstance(a, T) and a.op == "star" for a in args):
                own = Frame(PRELUDE())
                given = [f"_{i}" for i in range(len(args))]
                own.vars.update(zip(given, args))
                own.vars.update((f"_k_{n}", v) for n, v in kw.items())
                f = ast.parse("lambda *more, **named: _0(" + ", ".join(
                    given[1:] + ["*more"] + [f"{n}=_k_{n}" for n in kw] +
                    ["**named"]) + ")", mode="eval").body
                return Closure(f, own, PRELUDE())
            return self.opaque_call(sym(name), args, kw)
        if name == "numpy.ndim" and len(args) == 1 and not kw:
            return call(sym("len"), [call(sym("numpy.shape"), [
                self.safe_term(args[0])])])
        if name == "numpy.linalg.solve" and len(args) == 2 and not kw:
            x = self.solve2(*args)
            if x is not None:
                return x
        if name in ("math.prod", "numpy.prod"):
            return self.prod(args[0])
        if name in ("numpy.dot", "numpy.inner") and len(args) == 2 and \
                not kw and all(isinstance(a, ListObj) for a in args):
            return self.b_sum([self.b_map([
                ModRef("operator.mul")] + args, {}, node)], {}, node)
        if name == "math.fsum" or name == "numpy.sum" and len(args) == 1 \
                and isinstance(args[0], ListObj):
            return self.b_sum(args, kw, node)
        if name in ("math.isclose",):
            pass
        if name == "pandas.DataFrame" and not kw and (
                not args or len(args) == 1 and isinstance(args[0], DictObj)):
            return DictObj(list(args[0].segs) if args else [],
                           len(self.ctx), "frame")
        if name == "collections.defaultdict" and len(args) == 1 and \
                not kw:
            d = DictObj([], len(self.ctx))
            d.factory = args[0]
            return d
        if name == "collections.OrderedDict" and not args and not kw:
            return DictObj([], len(self.ctx))
        if name == "collections.deque" and len(args) <= 1 and not kw:
            return ListObj("list", self.iterate(args[0]) if args else [],
                           len(self.ctx))
        return self.opaque_call(sym(name), args, kw)

    def in_terms_of_the_language(self, name, args, kw, node):
        """a call of the standard library by what it stands for"""
        if name == "operator.attrgetter" and args and not kw:
            ns = [pyval(x) if isinstance(x, T) else None for x in args]
            if all(isinstance(n, str) for n in ns):
                t = ", ".join("value." + n for n in ns)
                f = ast.parse("lambda value: " + (
                    t if len(ns) == 1 else f"({t})"), mode="eval").body
                return Closure(f, Frame(PRELUDE()), PRELUDE())
        if name == "operator.methodcaller" and args:
            n = pyval(args[0]) if isinstance(args[0], T) else None
            if isinstance(n, str) and len(args) == 1 and not kw:
                f = ast.parse(f"lambda value: value.{n}()", mode="eval").body
                return Closure(f, Frame(PRELUDE()), PRELUDE())
        if kw or any(isinstance(a, T) and a.op == "star" for a in args):
            return None
        if name == "functools.reduce":
            x, y = sym("reduced"), sym("element")
            try:
                t = self.safe_term(self.call_value(
                    args[0], [x, y], {}, node))
            except Unsupported:
                t = None
            if t is add(x, y):
                return self.b_sum(args[1:], kw, node)
        n = name.replace(".", "_")
        f = PRELUDE().defs.get(n) or PRELUDE().defs.get(f"{n}_{len(args)}")
        if f is None:
            return None
        return self.call_closure(
            Closure(f, Frame(PRELUDE()), PRELUDE()), args, {}, node)

    def solve2(self, a, b):
        """two linear equations with two unknowns"""
        def rows(t):
            t = self.safe_term(t)
            if t.op == "call" and t.args[0] is sym("numpy.array") and \
                    len(t.args[1]) == 1 and not t.args[2]:
                t = t.args[1][0]
            return t.args if t.op == "tuple" and len(t.args) == 2 else None
        a, b = rows(a), rows(b)
        a = a and [rows(x) for x in a]
        if not a or not b or not all(a):
            return None
        (p, q), (r, s) = a
        u, v = b
        d = sub(mul(p, s), mul(q, r))
        return tup([div(sub(mul(u, s), mul(q, v)), d),
                    div(sub(mul(p, v), mul(u, r)), d)])

    def tupv(self, vals):
        if all(isinstance(v, T) for v in vals):
            return tup(vals)
        return ListObj("tuple", [Seg((), TRUE, v) for v in vals],
                       len(self.ctx))

    def thaw_dict(self, t):
        """dictionary value from its frozen form"""
        out = []
        for q, g, e in t.args[0]:
            m = {x[0]: fresh_id("i") for x in q}
            q = tuple((m[i], rename_ids(d, m), ar, so)
                      for i, d, ar, so in q)
            k, v, add_ = rename_ids(e, m).args
            out.append(Seg(q, rename_ids(g, m), v, k=k,
                           additive=tm.pyval(add_)))
        return DictObj(out, len(self.ctx))

    def product_vals(self, args):
        out = [((), [], TRUE)]
        for a in args:
            out = [(q + s.q, v + [s.e], b_and(g, s.g))
                   for q, v, g in out for s in self.iterate(a)]
        return out

    def listed(self, q, e):
        return ListObj("list", [Seg(q, TRUE, e)], len(self.ctx))

    def prod(self, v):
        r = ONE
        for s in self.iterate(v):
            e = self.term(s.e)
            if s.q:
                q, m = tm.canon_binders(s.q, [e], [s.g])
                r = mul(r, mk("prod", mk("comp", "seq", (
                    (q, rename_ids(s.g, m), rename_ids(e, m)),))))
            else:
                r = mul(r, ite(s.g, e, ONE))
        return r

    def b_sum(self, args, kw, node):
        start = self.term(args[1]) if len(args) > 1 else self.term(
            kw.get("start", ZERO))
        r = start
        v = args[0]
        t = v if isinstance(v, T) else None
        if t is not None and t.op not in (
                "tuple", "comp", "aslist", "cases", "rangeiter") and not (
                    t.op == "call" and t.args[0].op == "attr"
                    and t.args[0].args[1] in ("values", "keys")):
            return add(r, call(sym("sum"), [t]))
        for s in self.iterate(v):
            r = add(r, summation(s.q, s.g, self.safe_term(s.e)))
        return r

    def b_len(self, args, kw, node):
        v = args[0]
        self.looked_through(v)
        m = self.special(v, "__len__")
        if m is not None:
            return self.term(self.do_call(m, [], {}, node, None))
        if isinstance(v, T) and v.op == "comp" and v.args[0] == "seq":
            v = self._aslist("list", [v])
        if isinstance(v, T) and v.op == "idx" and len(v.args[1]) == 1 and \
                v.args[1][0].op == "slice" and \
                v.args[0].op in ("comp", "aslist"):
            lo, hi, by = v.args[1][0].args
            if is_num(lo) and lo.args[1] >= 0 and hi is NONE and by is NONE:
                n = self.b_len([v.args[0]], {}, None)
                return ite(tm.a_lt0(sub(lo, n)), sub(n, lo), ZERO)
        if isinstance(v, CasesV) or isinstance(v, T) and v.op == "cases":
            return cases([(g, self.b_len([x], kw, node)) for g, x in (
                v.items if isinstance(v, CasesV) else v.args[0])])
        if isinstance(v, ListObj):
            if all(not s.q and s.g is TRUE for s in v.segs):
                if v.kind == "set":
                    es = {self.safe_term(s.e) for s in v.segs}
                    if len(es) < 2 or all(is_const(e) for e in es):
                        return const(len(es))
                else:
                    return const(len(v.segs))
            r = ZERO
            if v.kind != "set":
                for s in v.segs:
                    if len(s.q) == 1 and s.g is TRUE:
                        c = card_of(s.q[0][1])
                        r = add(r, c if c is not None else call(
                            sym("len"), [s.q[0][1]]))
                    else:
                        r = add(r, summation(s.q, s.g, ONE))
                return r
        t = self.safe_term(v)
        if self.series is not None and self.series(t) is not None:
            return self.series(t)
        if t.op == "tuple":
            return const(len(t.args))
        if is_str(t):
            return const(len(t.args[1]))
        if t.op == "comp" and t.args[0] == "set" and len(t.args[1]) == 1 \
                and len(t.args[1][0][0]) == 1:
            q, g, e = t.args[1][0]
            if g is TRUE and e is bv(q[0][0], 0, q[0][3]):
                t = q[0][1]
        if t.op == "dict" and len(t.args[0]) == 1:
            # the same keys as another mapping
            q, g, e = t.args[0][0]
            if len(q) == 1 and q[0][2] == 1 and q[0][0] not in g.free and \
                    e.args[0] is bv(q[0][0], 0, q[0][3]):
                return ite(g, self.b_len([q[0][1]], {}, None), ZERO)
        if t.op == "dict" and not t.args[0]:
            return ZERO
        t = self.strip_iter(t)
        c = card_of(t)
        if c is not None:
            return c
        if t.op == "idx" and tm.is_tip(t.args[0]):
            pass
        return call(sym("len"), [t])

    def b_range(self, args, kw, node):
        a = [self.term(x) for x in args]
        if len(a) == 1:
            a = [ZERO, a[0]]
        if len(a) == 3:
            if a[2] is ONE:
                a = a[:2]
            elif a[2] is const(-1):
                r = ListObj("list", self.iterate(self.b_range(
                    [add(a[1], ONE), add(a[0], ONE)], {}, node)),
                    len(self.ctx))
                r.order = "back"
                return r
            else:
                return call(sym("range"), a)
        return cases([(g, mk("rangeiter", a[0], n))
                      for g, n in tm.by_case(a[1])])

    def _aslist(self, kind, args):
        if not args:
            return ListObj(kind, [], len(self.ctx))
        v = args[0]
        if isinstance(v, ListObj):
            r = ListObj(kind if v.kind != "override" else v.kind,
                        self.iterate(v) if v.kind == "gen" else list(v.segs),
                        len(self.ctx))
            r.order = v.order
            return r
        if isinstance(v, DictObj):
            return ListObj(kind, self.iterate(v), len(self.ctx))
        if isinstance(v, CasesV):
            return CasesV([(g, self._aslist(kind, [x]))
                           for g, x in v.items])
        t = self.strip_iter(self.term(v))
        if t.op == "tuple":
            return ListObj(kind, [Seg((), TRUE, x) for x in t.args],
                           len(self.ctx))
        if t.op in ("comp", "rangeiter", "cases"):
            return ListObj(kind, self.iterate(t), len(self.ctx))
        if t.op == "call" and t.args[0].op == "attr" and \
                t.args[0].args[1] in ("items", "values") and not t.args[1]:
            return ListObj(kind, self.iterate(t), len(self.ctx))
        if kind == "set":
            return ListObj("set", self.iterate(t), len(self.ctx))
        return mk("aslist", t)

    def b_list(self, args, kw, node):
        return self._aslist("list", args)

    def b_tuple(self, args, kw, node):
        r = self._aslist("tuple", args)
        if isinstance(r, ListObj) and all(
                not s.q and s.g is TRUE and isinstance(s.e, T)
                for s in r.segs):
            return tup([s.e for s in r.segs])
        return r

    def b_set(self, args, kw, node):
        return self._aslist("set", args)

    b_frozenset = b_set

    def b_sorted(self, args, kw, node):
        cs = self.alternatives(args[0])
        if cs is not None:
            return CasesV([(g, self.b_sorted([x], kw, node)) for g, x in cs])
        r = self._aslist("list", args)
        if kw and not isinstance(r, ListObj):
            return self.opaque_call(sym("sorted"), args, kw)
        if isinstance(r, T) and r.op == "aslist" and card_of(
                r.args[0]) is None:
            r = ListObj("list", self.iterate(r), len(self.ctx))
        back = kw.get("reverse", PYFALSE)
        if isinstance(r, T) and back is not PYFALSE:
            r = ListObj("list", self.iterate(r), len(self.ctx))
        if isinstance(r, ListObj):
            r.order = None if "key" in kw or back not in (
                PYTRUE, PYFALSE) else "max" if back is PYTRUE else "min"
        return r

    def b_iter(self, args, kw, node):
        m = self.special(args[0], "__iter__")
        if m is not None and len(args) == 1:
            return self.do_call(m, [], {}, node, None)
        return args[0]

    def alternatives(self, v):
        """what v is in the different cases, if there are some"""
        return v.items if isinstance(v, CasesV) else v.args[0] if isinstance(
            v, T) and v.op == "cases" else None

    def b_reversed(self, args, kw, node):
        cs = self.alternatives(args[0])
        if cs is not None:
            return CasesV([(g, self.b_reversed([x], kw, node))
                           for g, x in cs])
        v = args[0]
        if isinstance(v, ListObj) and all(not s.q for s in v.segs):
            return ListObj("list", list(reversed(v.segs)), v.depth)
        r = self._aslist("list", args)
        if isinstance(r, T) and r.op == "aslist":
            r = ListObj("list", self.iterate(r), len(self.ctx))
        if isinstance(r, ListObj):
            r.order = TURNED.get(r.order)
        return r

    def b_next(self, args, kw, node):
        v = args[0]
        r = self.next_of(v, args, kw, node)
        if isinstance(v, ListObj) and v.kind == "gen" and \
                v.read_at is not None and len(self.ctx) == v.depth:
            # one less is left in the iterator
            rest = self.iterate(self.subscript(
                ListObj("list", v.segs, v.depth),
                mk("slice", const(1), NONE, NONE), node))
            if self.pc is not v.pc0:
                rest = [Seg(s.q, b_and(s.g, g), s.e, s.k, s.additive)
                        for g, segs in ((b_not(self.pc), v.segs),
                                        (self.pc, rest)) for s in segs]
            v.segs = rest
        return r

    def next_of(self, v, args, kw, node):
        if isinstance(v, ListObj) and v.order != "" and len(args) == 1 and \
                not (v.order is None and all(
                    s.q and s.g is not TRUE for s in v.segs)):
            return self.subscript(
                ordered(ListObj("list", v.segs, v.depth), v.order), ZERO,
                node)
        if isinstance(v, (ListObj, T, DictObj)):
            if isinstance(v, DictObj):
                v = ListObj("list", self.iterate(v), len(self.ctx))
            if isinstance(v, T):
                v = self._aslist("list", [v])
            if len(args) > 1:
                t = self.term(v)
                if t.op == "comp":
                    r = self.front_of(t.args[1])
                    if r is not None:
                        return ite(b_or(*[self.exists(q, g)
                                          for q, g, _ in t.args[1]]),
                                   r, self.term(args[1]))
                return call(sym("next"), [t, self.term(args[1])])
            return self.subscript(v, ZERO, node)
        return self.opaque_call(sym("next"), args, kw)

    def b_dict(self, args, kw, node):
        d = DictObj([], len(self.ctx))
        if args:
            v = args[0]
            if isinstance(v, T) and v.op == "cases":
                v = CasesV(list(v.args[0]))
            if isinstance(v, CasesV):
                out = None
                for g, x in reversed(v.items):
                    y = self.b_dict([x], kw, node)
                    out = y if out is None else self.merge(g, y, out)
                return out
            if isinstance(v, DictObj):
                d.segs = list(v.segs)
            elif isinstance(v, T) and v.op not in (
                    "tuple", "comp", "rangeiter"):
                if v.op not in ("sym", "attr"):
                    return call(sym("dict"), [v], [
                        (k, self.term(x)) for k, x in kw.items()])
                q, e = self.quant(v)
                d.segs.append(Seg(q, TRUE, tm.idx(v, [e]), k=e))
            else:
                for s in self.iterate(v, 2):
                    a, b = self.unpack(s.e, 2)
                    d.segs.append(Seg(s.q, s.g, b, k=self.term(a)))
        for k, v in kw.items():
            d.segs.append(Seg((), TRUE, v, k=const(k)))
        return d

    def b_vars(self, args, kw, node):
        if isinstance(args[0], NewObj):
            return self.field(args[0], "__dict__")
        return tm.attr(self.term(args[0]), "__dict__")

    def b_fromkeys(self, args, kw, node):
        v = args[1] if len(args) > 1 else NONE
        if isinstance(v, (ListObj, DictObj)):
            v.shared = True
        return DictObj([Seg(s.q, s.g, v, k=self.term(s.e))
                        for s in self.iterate(args[0])], len(self.ctx))

    def b_enumerate(self, args, kw, node):
        start = self.term(args[1]) if len(args) > 1 else self.term(
            kw.get("start", ZERO))
        v = args[0]
        if isinstance(v, CasesV) or isinstance(v, T) and v.op == "cases":
            return CasesV([(g, self.b_enumerate([x, start], {}, node))
                           for g, x in (v.items if isinstance(v, CasesV)
                                        else v.args[0])])
        segs = self.iterate(v)
        if all(not s.q and s.g is TRUE and s.order == "" for s in segs):
            return ListObj("list", [
                Seg((), TRUE, tup([add(start, const(i)),
                                   self.safe_term(s.e)]))
                for i, s in enumerate(segs)], len(self.ctx))
        if len(segs) == 1 and len(segs[0].q) == 1 and segs[0].g is TRUE:
            (i, dom, ar, so), = segs[0].q
            e = self.term(segs[0].e)
            if so.startswith("nat:") and ar == 1 and card_of(dom) is not \
                    None and segs[0].order == "":
                return ListObj("list", [Seg(segs[0].q, TRUE, tup([
                    add(start, bv(i, 0, so)), e]))], len(self.ctx))
            if so == "nat" and ar == 1 and dom.op == "range" and \
                    segs[0].order == "" and self.strip_iter(self.safe_term(v)) in POSITIONED:
                return ListObj("list", [Seg(segs[0].q, TRUE, tup([
                    add(start, bv(i, 0, so)), e]))], len(self.ctx))
            (_, at, _, _), = in_order(segs[0].order, segs[0].q)
            pos = mk("pos", at, bv(i, 0, so)) if ar == 1 else mk(
                "pos", at, tup([bv(i, k, so) for k in range(ar)]))
            return ListObj("list", [Seg(segs[0].q, TRUE, tup([
                add(start, pos), e]))], len(self.ctx))
        return call(sym("enumerate"), [self.term(v), start])

    def in_case(self, segs):
        """[(condition, segments)] of a list made differently in exclusive
        cases"""
        ids = {x[0] for s in segs for x in s.q}
        gs = []
        for s in segs:
            if any(x.free & ids for x in tm.b_atoms(s.g)):
                return [(TRUE, segs)]
            if s.g not in gs:
                gs.append(s.g)
        if len(gs) < 2 or b_or(*gs) is not TRUE or any(
                b_and(g, h) is not FALSE for n, g in enumerate(gs)
                for h in gs[n + 1:]):
            return [(TRUE, segs)]
        return [(g, [Seg(s.q, TRUE, s.e) for s in segs if s.g is g])
                for g in gs]

    def zipped(self, v):
        """an argument of zip that is kept as it is"""
        segs = self.iterate(v)
        if len(segs) == 1 and len(segs[0].q) == 1 and segs[0].g is TRUE:
            (i, dom, ar, so), = segs[0].q
            if card_of(dom) is not None and segs[0].e is bv(i, 0, so):
                return mk("rangeiter", ZERO, card_of(dom))
        return self.safe_term(v)

    def transposed(self, t):
        """zip(*rows): the columns of rows of unknown number"""
        i, j = fresh_id("i"), fresh_id("i")
        n = mk("ncols", t)
        rows = self.iterate(t)
        col = ListObj("list", [Seg(
            s.q, s.g, idx(self.term(s.e), (bv(i, 0, "nat"),)))
            for s in rows], len(self.ctx))
        return ListObj("gen", [Seg(((i, mk("range", ZERO, n), 1, "nat"),),
                                   TRUE, self.term(col))], len(self.ctx))

    def put_in_order(self, v):
        """v as a term that shows the order of its elements"""
        t = self.safe_term(v)
        return t if not isinstance(v, ListObj) or v.order == "" or \
            t.op == "resorted" else mk("resorted", str(v.order), t)

    def b_zip(self, args, kw, node):
        if len(args) == 1 and isinstance(args[0], T) and \
                args[0].op == "star":
            return self.transposed(args[0].args[0])
        for k, a in enumerate(args):
            a = self.safe_term(a) if isinstance(a, T) else None
            if a is not None and a.op == "call" and a.args[0] is sym(
                    "itertools.count") and len(args) == 2 and len(
                    a.args[1]) < 2 and not a.args[2]:
                # the positions, counted alongside
                z = self.b_enumerate([args[1 - k], *a.args[1]], {}, node)
                return z if k == 0 else ListObj("gen", [
                    Seg(s.q, s.g, self.tupv(self.unpack(s.e, 2)[::-1]))
                    for s in self.iterate(z)], len(self.ctx))
        if any(isinstance(a, ListObj) and a.order != "" for a in args) and \
                len(args) > 1:
            return self.opaque_call(sym("zip"), [
                self.put_in_order(a) for a in args], kw)
        lists = [self.iterate(a) for a in args]
        for k, ls in enumerate(lists):
            cs = self.in_case(ls)
            if len(cs) > 1:
                out = []
                for g, segs in cs:
                    a = list(args)
                    a[k] = ListObj("list", segs, len(self.ctx))
                    z = self.b_zip(a, kw, node)
                    out += [Seg(x.q, b_and(g, x.g), x.e)
                            for x in self.iterate(z)]
                return ListObj("list", out, len(self.ctx))
        if all(all(not s.q and s.g is TRUE for s in ls) for ls in lists):
            return ListObj("list", [
                Seg((), TRUE, self.tupv([s.e for s in row]))
                for row in zip(*lists)], len(self.ctx))
        z = self.zip_counted(lists)
        if z is not None:
            return z
        n = min((len(ls) for ls in lists if all(
            not s.q and s.g is TRUE for s in ls)), default=None)
        if n is not None and all(
                len(ls) == n and all(not s.q and s.g is TRUE for s in ls)
                or isinstance(a, T) and a.op == "attr"
                for a, ls in zip(args, lists)):
            # attributes hold as many values as they are read with
            return ListObj("list", [Seg((), TRUE, self.tupv(
                [idx(a, (const(k),)) if isinstance(a, T) and a.op == "attr"
                 else ls[k].e for a, ls in zip(args, lists)]))
                for k in range(n)], len(self.ctx))
        # same nominal sequence on all positions
        firsts = []
        for ls in lists:
            if len(ls) != 1 or len(ls[0].q) != 1 or ls[0].g is not TRUE:
                return call(sym("zip"), [self.zipped(a) for a in args])
            firsts.append(ls[0])
        dom = firsts[0].q[0][1]
        c0 = card_of(dom)
        i, _, ar, so = firsts[0].q[0]
        elems = []
        for s in firsts:
            j, d, ar2, so2 = s.q[0]
            c = card_of(d)
            if d is dom or (c0 is not None and c is c0):
                elems.append(subst(self.term(s.e), {
                    bv(j, k, so2): bv(i, k, so) for k in range(ar2)}))
            else:
                return call(sym("zip"), [self.zipped(a) for a in args])
        return ListObj("list", [Seg(firsts[0].q, TRUE, tup(elems))],
                       len(self.ctx))

    def zip_counted(self, lists):
        """parts of the same counted sequence, beginning at different
        positions"""
        rows = []
        for ls in lists:
            if len(ls) != 1 or len(ls[0].q) != 1:
                return None
            f = self.first_of(ls[0].q[0], ls[0].g)
            if f is None:
                return None
            rows.append((f, ls[0]))
        dom, so = rows[0][1].q[0][1], rows[0][1].q[0][3]
        if any(s.q[0][1] is not dom for _, s in rows) or all(
                s.g is TRUE for _, s in rows):
            return None
        top = max(f for f, _ in rows)
        i = fresh_id("i")
        g, elems = TRUE, []
        for f, s in rows:
            m = {bv(s.q[0][0], 0, so): add(bv(i, 0, so), const(f - top))}
            g = b_and(g, subst(s.g, m))
            elems.append(subst(self.term(s.e), m))
        return ListObj("list", [Seg(((i, dom, 1, so),), g, tup(elems))],
                       len(self.ctx))

    def first_of(self, q, g):
        """first value of a counted variable; the condition may only cut off
        the ends"""
        i, dom, ar, so = q
        if ar != 1 or not so.startswith("nat") or not (
                card_of(dom) is not None or dom.op == "range"):
            return None
        for a in tm.b_atoms(g):
            if a.op not in ("eq0", "lt0"):
                return None
            for (qq, gg, atoms), c in as_poly(a.args[0]).terms.items():
                if qq or gg is not TRUE or any(
                        x.op not in ("bv", "card") and x.free
                        for x, _ in atoms):
                    return None
        for k in range(4):
            if subst(g, {bv(i, 0, so): const(k)}) is not FALSE:
                return k
        return None

    def b_map(self, args, kw, node):
        if len(args) > 2 and not kw:
            out = []
            for s in self.iterate(self.b_zip(args[1:], {}, node)):
                d = len(self.ctx)
                self.ctx.extend(s.q)
                out.append(Seg(s.q, s.g, self.call_value(
                    args[0], self.unpack(s.e, len(args) - 1), {}, node)))
                del self.ctx[d:]
            return ListObj("gen", out, len(self.ctx))
        if len(args) == 2:
            out = []
            once = isinstance(args[0], ModRef) and args[0].name in ITERATORS
            for s in self.iterate(args[1]):
                d = len(self.ctx)
                self.ctx.extend(s.q)
                v = self.call_value(args[0], [s.e], {}, node)
                out.append(Seg(s.q, s.g, self.used_once(v) if once else v))
                del self.ctx[d:]
            return ListObj("gen", out, len(self.ctx))
        return self.opaque_call(sym("map"), args, kw)

    def b_filter(self, args, kw, node):
        out = []
        for s in self.iterate(args[1]):
            d = len(self.ctx)
            self.ctx.extend(s.q)
            v = s.e if args[0] is NONE else self.call_value(
                args[0], [s.e], {}, node)
            out.append(Seg(s.q, b_and(s.g, self.truth(v)), s.e))
            del self.ctx[d:]
        return ListObj("gen", out, len(self.ctx))

    def b_any(self, args, kw, node):
        return b_or(*[self.exists(s.q, b_and(s.g, self.truth(s.e)))
                      for s in self.iterate(args[0])])

    def b_all(self, args, kw, node):
        return b_not(b_or(*[
            self.exists(s.q, b_and(s.g, b_not(self.truth(s.e))))
            for s in self.iterate(args[0])]))

    def _minmax(self, name, args, kw):
        if kw:
            return self.opaque_call(sym(name), args, kw)
        if len(args) == 1:
            v = args[0]
            segs = None
            if isinstance(v, ListObj) or (
                    isinstance(v, T) and v.op in ("tuple", "comp")):
                segs = self.iterate(v)
            if segs is not None and segs and all(
                    not s.q and s.g is TRUE for s in segs):
                args = [s.e for s in segs]
            else:
                t = self.strip_iter(self.safe_term(v))
                c = card_of(t)
                if c is not None:
                    return sub(c, ONE) if name == "max" else ZERO
                return call(sym(name), [t])
        ts = sorted({self.safe_term(a) for a in args}, key=lambda t: t.key)
        if all(is_num(t) for t in ts):
            f = max if name == "max" else min
            return const(f(t.args[1] for t in ts))
        if len(ts) == 1:
            return ts[0]
        return call(sym(name), ts)

    def b_max(self, args, kw, node):
        return self._minmax("max", args, kw)

    def b_min(self, args, kw, node):
        return self._minmax("min", args, kw)

    def b_abs(self, args, kw, node):
        t = self.safe_term(args[0])
        if is_num(t):
            return const(abs(t.args[1]))
        return call(sym("abs"), [t])

    def b_bool(self, args, kw, node):
        return self.truth(args[0]) if args else FALSE

    def b_str(self, args, kw, node):
        if not args:
            return const("")
        v = args[0]
        if isinstance(v, ObjRef):
            return call(sym("str"), [v.term])
        t = self.safe_term(v)
        if is_str(t):
            return t
        if is_num(t):
            return const(str(pyval(t)))
        return call(sym("str"), [t])

    def b_int(self, args, kw, node):
        if not args:
            return ZERO
        t = self.safe_term(args[0])
        if is_num(t) and t.args[1].denominator == 1:
            return t
        return call(sym("int"), [t])

    def b_float(self, args, kw, node):
        if not args:
            return ZERO
        t = self.safe_term(args[0])
        if is_num(t):
            return t
        if is_str(t) and t.args[1].lower() in ("inf", "+inf", "infinity"):
            return const(float("inf"))
        if is_str(t) and t.args[1].lower() in ("-inf",):
            return const(float("-inf"))
        return call(sym("float"), [t])

    def b_type(self, args, kw, node):
        v = args[0]
        if isinstance(v, NewObj) and v.cls is not None:
            return v.cls
        if isinstance(v, ObjRef) and v.cls is not None:
            return v.cls
        return call(sym("type"), [self.safe_term(v)])

    def b_isinstance(self, args, kw, node):
        v = self.safe_term(args[0])
        c = args[1]
        opts = self.unpack_any(c)
        if opts is None:
            opts = [c]
        out = []
        for o in opts:
            ot = self.safe_term(o)
            out.append(self.isinst(v, ot))
        return b_or(*out)

    def isinst(self, v, ot):
        if v.op == "cases":
            return b_or(*[b_and(g, self.isinst(x, ot))
                          for g, x in v.args[0]])
        if v is NONE:
            return FALSE
        if v.op == "record":
            c = self.helpers.get(v.args[0])
            return TRUE if c is not None and ot.op == "cls" and ot.args[
                0] in {x.name for x in self.family(c)} else FALSE
        if v.op == "call" and v.args[0].op == "attr" and \
                v.args[0].args[1] in ("union", "append", "copy") and \
                v.args[0].args[0].op == "sym":
            v = v.args[0].args[0]    # of the same kind
        if v.op == "sym" and v.args[0].startswith("GIVEN:"):
            kind = v.args[0].split(":")[2]
            if ot.args and isinstance(ot.args[0], str) and kind and \
                    ot.args[0].split(".")[-1] in KINDS:
                return TRUE if ot.args[0].split(".")[-1] == kind else FALSE
        nm = ot.args[0].split(".")[-1] if ot.args and isinstance(
            ot.args[0], str) else ""
        if self.series is not None and self.series(v) is not None and \
                nm in ("int", "float", "Number", "Real"):
            return FALSE
        if nm == "Iterable" and v.op == "call" and v.args[0] is sym(
                "sequence") and v.args[1]:
            return b_not(a_is(v.args[1][0], NONE))
        return tm.a_isinstance(v, ot)

    def b_issubclass(self, args, kw, node):
        t = self.safe_term(args[0])
        if t.op == "call" and t.args[0] is sym("type") and len(
                t.args[1]) == 1:
            return self.b_isinstance([t.args[1][0], args[1]], kw, node)
        return lit(mk("truthy", call(sym("issubclass"), [
            t, self.safe_term(args[1])])))

    def b_callable(self, args, kw, node):
        v = args[0]
        if isinstance(v, (Closure, ClassRef)):
            return TRUE
        return lit(mk("truthy", call(sym("callable"), [self.safe_term(v)])))

    def given_names(self, attr):
        """what every Investment or NonConvex has from its constructor"""
        found = self.repo.find_class(
            {"investment": "Investment", "nonconvex": "NonConvex"}[attr])
        if found is None:
            return ()
        return {n.attr for f in found[1].body
                if isinstance(f, ast.FunctionDef) and f.name == "__init__"
                for s in f.body for n in (
                    s.targets if isinstance(s, ast.Assign) else ())
                if isinstance(n, ast.Attribute)
                and isinstance(n.value, ast.Name) and n.value.id == "self"}

    def b_hasattr(self, args, kw, node, fr):
        base, n = args[0], self.safe_term(args[1])
        if is_str(n):
            nm = n.args[1]
            t = self.safe_term(base)
            if isinstance(base, CasesV) or t.op == "cases":
                out = FALSE
                for g, x in (base.items if isinstance(base, CasesV)
                             else t.args[0]):
                    h = self.truth(self.b_hasattr([x, n], kw, node, fr))
                    out = b_or(out, b_and(g, h))
                return out
            if t is NONE or t is UNDEF:
                return FALSE
            if t.op == "record":
                c = self.helpers.get(t.args[0])
                return TRUE if nm in dict(t.args[1]) or (
                    c is not None and self.class_lookup(c, nm)) else FALSE
            if self.tables and nm == "_index_set":
                return TRUE     # of a variable
            if t is M and nm.endswith("Block") and \
                    nm not in self.blockrefs():
                return FALSE        # no such class in the repository
            if (t, nm) in self.heap:
                return TRUE
            if t.op == "sym" and t.args[0] in self.blockrefs() and \
                    nm in GROUP_ATTRS and nm in self.block_names(t.args[0]):
                # all are created together, for a non-empty group
                if t.args[0] not in ALWAYS:
                    return lit(mk("hasattr", M, const(t.args[0])))
                return lit(mk("hasattr", t, const("*")))
            cls = base.cls if isinstance(base, ObjRef) else self.class_of(t)
            if cls is not None and self.class_lookup(cls, nm):
                return TRUE
            if t.op == "attr" and t.args[1] in ("investment", "nonconvex") \
                    and any(f(t) for f in tm.OBJ_ATTR) and \
                    nm in self.given_names(t.args[1]):
                return a_truthy(t)      # None has no such attribute
            if isinstance(base, ClassRef) and self.class_lookup(base, nm):
                return TRUE
        return lit(mk("hasattr", self.safe_term(base), n))

    def b_getattr(self, args, kw, node, fr):
        base, n = args[0], self.safe_term(args[1])
        if n.op == "cases":
            out = None
            for g, x in n.args[0]:
                v = self.b_getattr([base, x] + list(args[2:]), kw, node, fr)
                out = v if out is None else self.merge(g, v, out)
            return out
        if is_str(n):
            if len(args) > 2:
                h = self.b_hasattr(args[:2], kw, node, fr)
                if h is TRUE:
                    return self.getattr(base, n.args[1], fr)
                return self.merge(h, self.getattr(base, n.args[1], fr),
                                  args[2])
            return self.getattr(base, n.args[1], fr)
        t = self.safe_term(base)
        k = (t, n)
        if k in self.heap:
            return self.heap[k]
        return mk("dynattr", t, n)

    def b_setattr(self, args, kw, node, fr):
        base, n, v = args[0], self.safe_term(args[1]), args[2]
        if is_str(n):
            self.setattr(base, n.args[1], v, fr)
            return NONE
        t = self.safe_term(base)
        if isinstance(v, Component):
            self.attach_dyn(base, n, v, fr)
            return NONE
        self.emit("store", tm.show(n), (t, self.safe_term(v)))
        self.heap[(t, n)] = v
        return NONE

    def attach_dyn(self, base, n, comp, fr):
        """component stored under a computed name"""
        name = "dyn:" + tm.show(n)
        self.attach(base, name, comp, fr, n)
        t = self.term(base)
        v = self.heap.pop((t, name))
        self.heap[(t, n)] = v
        if n.op == "cases":
            for g, x in n.args[0]:
                self.heap[(t, x)] = v

    def dynattr(self, owner, n):
        if n.op == "cases":
            return cases([(g, self.dynattr(owner, x)) for g, x in n.args[0]])
        if is_str(n):
            return tm.attr(owner, n.args[1])
        return mk("dynattr", owner, n)

    # ------------------------------------------------------------ methods
    def call_method(self, base, name, args, kw, node, fr, ft=None):
        if name in ("component", "find_component") and len(args) == 1 and \
                isinstance(base, T) and base is M:
            return self.b_getattr([base, args[0], NONE], {}, node, fr)
        if self.tables and isinstance(base, self.tables.Tabular):
            return self.tables.method(self, base, name, args, kw, node)
        if isinstance(base, ListObj):
            return self.list_method(base, name, args, kw, node)
        if isinstance(base, DictObj):
            return self.dict_method(base, name, args, kw, node)
        if isinstance(base, CasesV) and all(
                isinstance(x, (ListObj, DictObj)) for _, x in base.items):
            out = None
            for g, x in base.items:
                pc = self.pc
                self.pc = b_and(pc, g)
                if self.pc is not FALSE:
                    v = self.call_method(x, name, args, kw, node, fr)
                    out = v if out is None else self.merge(g, v, out)
                self.pc = pc
            return UNDEF if out is None else out
        if isinstance(base, SuperRef):
            self.emit("call", "super." + name, tup(
                [self.safe_term(a) for a in args]
                + [tup([const(k), self.safe_term(v)])
                   for k, v in sorted(kw.items())]))
            return NONE
        if isinstance(base, CompRef):
            if name == "add" and base.kind in ("Constraint",
                                               "ConstraintList"):
                self.add_constraint(base.term, args[-1])
                return NONE
        t = self.safe_term(base)
        if name == "update" and isinstance(base, T) and kw and not args and \
                "**" not in kw and t.op != "attr":
            for k, v in kw.items():
                self.setitem(base, const(k), v, node)
            return NONE
        if name == "update" and t.op == "attr" and \
                t.args[1] == "__dict__" and len(args) < 2:
            given = [(const(k), v) for k, v in kw.items()]
            if args and isinstance(args[0], DictObj) and all(
                    not s.q and s.g is TRUE for s in args[0].segs):
                given = [(s.k, s.e) for s in args[0].segs] + given
                args = []
            if not args:
                for k, v in given:
                    self.b_setattr([t.args[0], k, v], {}, node, fr)
                return NONE
        if name in COMPARED and len(args) == 1 and not kw and \
                t.op == "idx" and len(t.args[1]) == 1 and is_str(t.args[1][0]):
            return self.compare(COMPARED[name], t, args[0], node)
        if name == "flows" and not args and not kw and t is tm.attr(M, "es"):
            return tm.attr(M, "flows")
        if t.op == "cases" and name != "__init__":
            out = None
            for g, x in t.args[0]:
                pc = self.pc
                self.pc = b_and(pc, g)
                if self.pc is not FALSE:
                    v = self.call_method(x, name, args, kw, node, fr)
                    out = v if out is None else self.merge(g, v, out)
                self.pc = pc
            return UNDEF if out is None else out
        if name == "__init__":
            self.emit("call", tm.show(t) + ".__init__", tup(
                [self.safe_term(a) for a in args]
                + [tup([const(k), self.safe_term(v)])
                   for k, v in sorted(kw.items())]))
            return NONE
        if name in ("parent_block", "model") and not self.tables and not args:
            if t is not M:
                return self.model_value()
        if name == "add_component" and len(args) == 2:
            n = self.safe_term(args[0])
            if isinstance(args[1], Component):
                if is_str(n):
                    self.attach(base, n.args[1], args[1], fr)
                else:
                    self.attach_dyn(base, n, args[1], fr)
                return NONE
            self.emit("add_component", None, (t, n, self.safe_term(args[1])))
            return NONE
        if name == "add" and len(args) == 2 and isinstance(args[1], T) and (
                is_guard(args[1]) or args[1].op in ("cases",)):
            self.add_constraint(t, args[1])
            return NONE
        if t.op == "attr" and t.args[0] is M and t.args[1] in CARD or (
                card_of(t) is not None):
            if name == "at" and len(args) == 1:
                return nth_pyomo(t, self.term(args[0]))
            if name == "first":
                return ZERO
            if name == "last":
                return sub(card_of(t), ONE)
            if name in ("next", "prev", "nextw", "prevw") and args:
                x = self.term(args[0])
                k = self.term(args[1]) if len(args) > 1 else ONE
                if k is ONE and name.endswith("w"):
                    c = card_of(t)
                    end, other = (sub(c, ONE), ZERO) if name == "nextw" \
                        else (ZERO, sub(c, ONE))
                    return ite(a_eq(x, end), other,
                               add(x, ONE if name == "nextw" else neg(ONE)))
                if not name.endswith("w"):
                    return add(x, k) if name == "next" else sub(x, k)
            if name == "ord" and len(args) == 1:
                return add(self.term(args[0]), ONE)
            if name in ("data", "ordered_data"):
                return mk("aslist", t)
        if name in ("fix", "setlb", "setub", "unfix", "set_value"):
            if name == "setlb":
                self.lb(self.refname(t), t, self.term(args[0]))
                return NONE
            if name == "setub":
                self.ub(self.refname(t), t, self.term(args[0]))
                return NONE
            if name == "set_value" and args:
                self.setattr(t, "value", args[0], fr)
                return NONE
            if name == "fix":
                if args or "value" in kw:
                    v = args[0] if args else kw["value"]
                else:
                    v = self.getattr(t, "value", fr)
                if args or "value" in kw:
                    self.heap[(t, "value")] = v
                self.emit("constraint", self.refname(t) + ".fix",
                          ("eq", sub(t, self.safe_term(v))))
                return NONE
            self.emit("call", "unfix", t)
            return NONE
        if t.op == "dict" and name in ("keys", "items", "values", "get",
                                       "copy"):
            return self.dict_method(self.thaw_dict(t), name, args, kw, node)
        if name == "keys" and not args:
            return mk("aslist", self.strip_iter(t))
        if name in ("items", "values") and not args:
            return mk("call", mk("attr", self.strip_iter(t), name), (), ())
        if name == "format" and is_str(t):
            return self.str_format(t.args[1], args, kw)
        if name == "join" and is_str(t):
            return call(tm.attr(t, "join"),
                        [self.safe_term(a) for a in args])
        if name == "get" and len(args) in (1, 2) and not kw:
            # mapping.get(k, d)
            k = self.safe_term(args[0])
            d = self.safe_term(args[1]) if len(args) > 1 else NONE
            return ite(lit(mk("in", k, t)), idx(t, (k,)), d)
        if name == "rpartition" and len(args) == 1 and is_str(
                self.safe_term(args[0])):
            # in front of and behind the last separator
            sep = self.safe_term(args[0])
            last = idx(call(tm.attr(t, "split"), [sep]), (const(-1),))
            return tup([idx(t, (mk("slice", NONE, sub(neg(call(
                sym("len"), [last])), const(len(pyval(sep)))), NONE),)),
                sep, last])
        if name == "rsplit" and len(args) == 2 and self.safe_term(
                args[1]) is ONE:
            # the last part is the same
            return mk("call", tm.attr(t, "rsplit"),
                      (self.safe_term(args[0]), ONE), ())
        if is_str(t):
            a = [self.safe_term(x) for x in args]
            if all(is_const(x) for x in a) and not kw and name in (
                    "upper", "lower", "replace", "startswith", "endswith",
                    "strip", "split", "title", "capitalize"):
                r = getattr(t.args[1], name)(*[pyval(x) for x in a])
                if isinstance(r, bool):
                    return TRUE if r else FALSE
                if isinstance(r, str):
                    return const(r)
        if name in ("min", "max") and not args and not kw and \
                t.op == "call" and t.args[0] is tm.SEQ and \
                len(t.args[1]) == 1 and is_num(t.args[1][0]):
            return t.args[1][0]
        if ft is None:
            ft = tm.attr(t, name)
        if name in ("sort", "reverse", "remove", "clear") and t.op in (
                "sym", "aslist") and fr is not None and (
                    name not in ("remove", "clear") or t.op == "aslist"):
            # all names of the list mean the changed one from now on
            new = mk("mutated", t, name, tup(
                [self.safe_term(a) for a in args]), self.pc)
            if t.op == "aslist":
                if name == "clear":
                    new = ListObj("list", [], len(self.ctx))
                elif name == "remove":
                    new = ListObj("list", self.iterate(t), len(self.ctx))
                    self.list_method(new, name, args, kw, node)
                else:
                    new = self.b_sorted([t], kw, node) if name == "sort" \
                        else self.b_reversed([t], kw, node)
            f = fr
            while f is not None:
                for n, x in f.vars.items():
                    if x is t:
                        f.vars[n] = new
                f = f.parent
        if t.op == "sym" and t.args[0].startswith("pyomo:"):
            return self.opaque_call(ft, args, kw)
        return self.opaque_call(ft, args, kw)

    def model_value(self):
        cls = self.classmap.get(M)
        return ObjRef(M, cls) if cls is not None else M

    def refname(self, t):
        while t.op == "idx":
            t = t.args[0]
        return t.args[1] if t.op == "attr" else tm.show(t)

    def str_format(self, s, args, kw):
        import string
        parts = []
        auto = 0
        try:
            for litr, field, spec, conv in string.Formatter().parse(s):
                if litr:
                    parts.append(const(litr))
                if field is None:
                    continue
                if field == "":
                    v = args[auto]
                    auto += 1
                elif field.isdigit():
                    v = args[int(field)]
                elif field in kw:
                    v = kw[field]
                else:
                    raise KeyError
                parts.append(self.safe_term(v))
        except (KeyError, IndexError, ValueError):
            return call(tm.attr(const(s), "format"),
                        [self.safe_term(a) for a in args],
                        [(k, self.safe_term(v)) for k, v in kw.items()])
        return self.fstr(parts)

    def added_in_order(self, lst, depth, seg):
        """a list gets further elements in a loop"""
        if lst.kind == "set":
            return
        orders = [o for d, o in self.turned if d >= depth]
        if seg is not None and seg.order != "":
            orders.append(seg.order)
        if orders or lst.order != "":
            lst.order = "back" if orders == ["back"] and not lst.segs and \
                len(self.ctx) <= depth + (seg is None) else None

    def list_method(self, base, name, args, kw, node):
        q = tuple(self.ctx[base.depth:])
        if base.alias is not None and name in (
                "append", "add", "extend", "update", "insert", "pop",
                "remove", "clear", "sort", "reverse", "discard"):
            # a list held for every key of a mapping
            lst, depth, key, kt, of = base.alias
            if name not in ("append", "add", "extend", "update"):
                raise Unsupported(f"{name} on lists of a mapping")
            g = b_and(self.since(of), self.key_eq(key, kt))
            q = tuple(self.ctx[depth:])
            for x in (self.iterate(args[0]) if name in ("extend", "update")
                      else [Seg((), TRUE, args[0])]):
                self.added_in_order(lst, depth, x)
                lst.segs.append(Seg(q + x.q, b_and(g, x.g), x.e))
            q = tuple(self.ctx[base.depth:])
        if name in ("append", "add"):
            self.added_in_order(base, base.depth, None)
            base.segs.append(Seg(q, self.since(base), args[0]))
            return NONE
        if name in ("extend", "update"):
            pc = self.since(base)
            for s in self.iterate(args[0]):
                self.added_in_order(base, base.depth, s)
                base.segs.append(Seg(q + s.q, b_and(pc, s.g), s.e))
            return NONE
        if name == "insert":
            if is_num(self.term(args[0])) and not q:
                base.segs.insert(int(self.term(args[0]).args[1]),
                                 Seg((), self.since(base), args[1]))
                return NONE
        if name == "copy":
            return ordered(ListObj(base.kind, list(base.segs),
                                   len(self.ctx)), base.order)
        if name == "count" and len(args) == 1:
            x = self.safe_term(args[0])
            r = ZERO
            for s in self.iterate(base):
                e = self.safe_term(s.e)
                r = add(r, summation(s.q, b_and(s.g, a_is(
                    e, x) if x is NONE else a_eq(e, x)), ONE))
            return r
        if name in ("keys", "data"):
            return base
        if name in ("union", "difference", "intersection") and args:
            op = {"union": ast.BitOr, "difference": ast.Sub,
                  "intersection": ast.BitAnd}[name]()
            out = base
            for other in args:
                if isinstance(other, CasesV):
                    out = self.set_op(op, out, other) if op.__class__ is \
                        ast.Sub else None
                    if out is None:
                        break
                    continue
                if not isinstance(other, ListObj):
                    other = self._aslist("set", [other])
                if not isinstance(other, ListObj) or out is None:
                    out = None
                    break
                out = self.set_op(op, out, other)
            if out is not None:
                return out
        if name in ("at", "first", "last", "index", "count"):
            return self.opaque_call(tm.attr(self.term(base), name), args, kw)
        if name in ("pop", "remove", "clear", "sort", "reverse", "discard"):
            if name == "sort" and base.kind != "override":
                back = kw.get("reverse", PYFALSE)
                base.order = None if "key" in kw or back not in (
                    PYTRUE, PYFALSE) or q or self.pc is not base.pc0 else \
                    "max" if back is PYTRUE else "min"
                return NONE
            if name in ("remove", "discard") and not q and \
                    self.pc is base.pc0 and len(args) == 1 and len(
                        base.segs) == 1 and different(base.segs[0]):
                # there is one at most
                s, = base.segs
                base.segs = [Seg(s.q, b_and(s.g, b_not(a_eq(
                    s.e, self.term(args[0])))), s.e)]
                return NONE
            if name == "pop" and not q and not args and len(
                    base.segs) == 1 and base.kind == "set" and \
                    compared_node(base.segs[0].q, base.segs[0].g) is not None:
                return self.list_get(ListObj("list", base.segs, base.depth),
                                     ZERO, node)
            if name == "reverse" and not q and self.pc is base.pc0 and \
                    base.kind != "override":
                if all(not s.q and s.g is TRUE for s in base.segs) and \
                        base.order == "":
                    base.segs = base.segs[::-1]
                else:
                    base.order = TURNED.get(base.order)
                return NONE
            if name == "clear" and not q and self.pc is base.pc0 and \
                    base.kind != "override":
                base.segs, base.order = [], ""
                return NONE
            t = self.term(base)
            r = call(tm.attr(t, name), [self.safe_term(a) for a in args])
            base.segs = [Seg((), TRUE, mk("mutated", t, name, tup(
                [self.safe_term(a) for a in args]), self.pc))]
            base.kind = "override"
            return r
        return self.opaque_call(tm.attr(self.term(base), name), args, kw)

    def entries(self, d):
        """the keys of a mapping and their values"""
        out, first = [], []
        made = None if d.factory is None else self.call_value(
            d.factory, [], {}, None)
        for s0 in d.segs:
            if s0.additive and not isinstance(made, T):
                continue
            s = self.refresh(s0)
            k, e, g = self.term(s.k), s.e, s.g
            n, pc = len(self.ctx), self.pc
            self.ctx.extend(s.q)
            try:
                if first:
                    g = b_and(g, b_not(self.contains(k, DictObj(first))))
                self.pc = b_and(pc, g)
                if self.pc is not FALSE and isinstance(e, T) and (
                        s0.additive or any(
                            x is not s0 and (x.additive or self.match_key(
                                x.q, TRUE, self.term(x.k), k)[0] is not None)
                            for x in d.segs)):
                    e = self.dict_get(d, k, default=made if isinstance(
                        made, T) else None)
            finally:
                self.pc = pc
                del self.ctx[n:]
            first.append(Seg(s.q, s.g, s.e, k=s.k))
            if s.q and not s0.additive and not self.unique(k, s.q):
                # other iterations of the loop gave this key before
                g = b_and(g, first_of(k, s.q))
            if g is not FALSE:
                out.append(Seg(s.q, g, e, k=k))
        return out

    def dict_method(self, base, name, args, kw, node):
        if base.kind == "frame" and name not in ("items", "keys", "get",
                                                 "copy", "pop"):
            return self.opaque_call(tm.attr(self.term(base), name), args, kw)
        if name == "items":
            return ListObj("list", [
                Seg(s.q, s.g, ListObj("tuple", [
                    Seg((), TRUE, s.k), Seg((), TRUE, s.e)])
                    if not isinstance(s.e, T) else tup([s.k, s.e]))
                for s in self.entries(base)], len(self.ctx))
        if name == "values":
            return ListObj("list", [Seg(s.q, s.g, s.e) for s in self.entries(
                base)], len(self.ctx))
        if name == "keys":
            return ListObj("list", self.iterate(base), len(self.ctx))
        if name == "get":
            k = self.safe_term(args[0])
            d = args[1] if len(args) > 1 else NONE
            g = self.contains(k, base)
            if g is FALSE:
                return d
            v = self.dict_get(base, k, node)
            return v if g is TRUE else self.merge(g, v, d)
        if name == "update":
            if args:
                v = args[0]
                if isinstance(v, DictObj):
                    for s in v.segs:
                        base.segs.append(Seg(
                            tuple(self.ctx[base.depth:]) + s.q,
                            b_and(self.since(base), s.g), s.e, s.k,
                            s.additive))
                else:
                    t = self.safe_term(v)
                    for s in self.iterate(t):
                        base.segs.append(Seg(
                            tuple(self.ctx[base.depth:]) + s.q,
                            b_and(self.since(base), s.g),
                            idx(t, (self.term(s.e),)), self.term(s.e)))
            for k, v in kw.items():
                base.segs.append(Seg(self.ctx[base.depth:],
                                     self.since(base), v, const(k)))
            return NONE
        if base.alias is not None and name != "setdefault" and name in (
                "update", "pop", "popitem", "clear"):
            raise Unsupported(f"{name} on mappings of a mapping")
        if name in ("clear", "popitem"):
            if name == "popitem" or len(self.ctx) != base.depth or \
                    self.since(base) is not TRUE:
                self.note_unknown(name + " of mappings", node)
                return sym("popped")
            base.segs = []
            return NONE
        if name == "setdefault":
            k = self.safe_term(args[0])
            d = args[1] if len(args) > 1 else NONE
            if base.alias is not None:
                if isinstance(d, (ListObj, DictObj)):
                    raise Unsupported("collections of a mapping of a mapping")
                self.setitem(base, k, d, node)
                return d
            v = self.grouped(base, k, d)
            if v is not None:
                return v
            g = self.contains(k, base)
            if g is not TRUE:
                base.segs.append(Seg(self.ctx[base.depth:], b_and(
                    self.since(base), b_not(g)), d, k))
            return self.dict_get(base, k, node)
        if name == "copy":
            return DictObj(list(base.segs), len(self.ctx), base.kind)
        if name == "pop":
            k = self.safe_term(args[0])
            d = args[1] if len(args) > 1 else None
            g = self.contains(k, base)
            v = self.dict_get(base, k, node, default=d)
            base.segs = [s for s in base.segs if s.k is not k]
            if g is FALSE and d is not None:
                return d
            return v
        return self.opaque_call(tm.attr(self.term(base), name), args, kw)
