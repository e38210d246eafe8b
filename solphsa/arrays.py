"""Element by element meaning of sequences built with numpy and pandas.

A sequence is known by its length and its element at a position.  Values
written with lists, comprehensions, numpy or pandas operations are brought to
that form, so that they coincide if they hold the same elements.
"""
from . import terms as tm
from .terms import (TRUE, FALSE, NONE, ONE, ZERO, add, as_poly, b_and, b_not,
                    bv, call, const, idx, mk, mul, sub, sym, tup)

SAME = {"numpy.array", "numpy.asarray", "pandas.Series", "pandas.DataFrame",
        "pandas.Index", "list", "tuple", "numpy.asanyarray",
        "pandas.to_numeric", "numpy.ravel", "numpy.squeeze", "numpy.copy",
        "pandas.DatetimeIndex", "pandas.to_datetime"}
KEPT = {"squeeze", "to_list", "tolist", "to_numpy", "to_series", "copy",
        "to_frame", "astype", "ravel", "flatten", "reset_index", "infer_objects"}
ATTR = {"values", "dt", "T", "array"}
HOUR = sym("HOUR")
SEQUENCES = ("list", "tuple", "DatetimeIndex")
FIRST = tm.call(sym("first without value"))


def fn_name(t):
    return t.args[0].args[0] if t.op == "call" and t.args[0].op == "sym" \
        else None


def method(t):
    """(object, name, arguments, keyword arguments) of a method call"""
    if t.op == "call" and t.args[0].op == "attr":
        return (t.args[0].args[0], t.args[0].args[1], t.args[1],
                dict(t.args[2]))
    return None


def slice_of(k):
    """(start, stop, step) of a slice used as index"""
    if k.op == "call" and k.args[0] is sym("slice"):
        return k.args[1]
    if k.op == "slice":
        return k.args
    return None


def constant(t):
    """the value a sequence repeats"""
    if t.op == "call" and t.args[0] is mk("cls", "_FakeSequence"):
        v = t.args[1] or [v for k, v in t.args[2] if k == "value"]
        return v[0] if v else None
    return None


def tabled(t):
    """the values a table {"value": ...} is made of"""
    if t.op == "dict" and len(t.args[0]) == 1:
        q, g, e = t.args[0][0]
        if not q and g is TRUE and e.op == "tuple" and \
                e.args[0] is const("value"):
            return e.args[1]
    return None


def wall(t):
    """an hour as pandas or numpy write it"""
    n = fn_name(t)
    if n in ("numpy.timedelta64", "pandas.Timedelta", "pandas.to_timedelta",
             "datetime.timedelta"):
        a, kw = t.args[1], dict(t.args[2])
        if len(a) == 2 and a[0] is ONE and tm.is_str(a[1]) and \
                a[1].args[1] in ("h", "H", "hour", "hours"):
            return True
        if len(a) == 1 and tm.is_str(a[0]) and not kw and \
                a[0].args[1] in ("1h", "1H", "1 h", "1 hour", "h"):
            return True
        if not a and list(kw) == ["hours"] and kw["hours"] is ONE:
            return True
    return False


class Arrays:
    def __init__(self, it, rules=(), frames=None):
        """frames(term): the table (with a column of values) it is, if so"""
        self.it = it
        self.frames = frames or (lambda t: None)
        self.memo = {}
        self.rules = rules
        self.care = TRUE
        self.positions = frames is not None   # slices begin at a position

    def assume(self, care):
        self.care = care
        self.memo = {}

    # ------------------------------------------------------------ kind
    def is_array(self, t):
        op = t.op
        if self.frames(t) or self.column(t) or tabled(t):
            return True
        if op == "sym":
            p = t.args[0].split(":")
            return p[0] == "GIVEN" and p[2] in SEQUENCES
        if op == "comp":
            return t.args[0] == "seq"
        if op in ("tuple", "rangeiter"):
            return True
        if op == "aslist":
            return self.is_array(t.args[0])
        if op == "cases":
            return all(self.is_array(x) for _, x in t.args[0])
        if op == "poly":
            return any(self.is_array(a) for _, _, at in t.args[0]
                       for a, _ in at)
        if op == "call":
            n = fn_name(t)
            if n in SAME and t.args[1]:
                return self.is_array(t.args[1][0])
            if n == "sequence":
                return False
            if n in ("numpy.where", "numpy.maximum", "numpy.minimum"):
                return any(self.is_array(x) or tm.is_guard(x)
                           and self.array_guard(x) for x in t.args[1])
            if n in ("numpy.cumsum", "cumprod", "numpy.diff",
                     "numpy.clip", "itertools.accumulate",
                     "numpy.append", "numpy.insert", "numpy.concatenate",
                     "pandas.date_range"):
                return True
            m = method(t)
            if m and m[1] in KEPT | {"diff", "dropna", "union", "append",
                                     "clip", "total_seconds", "cumsum",
                                     "cumprod", "div", "sub"}:
                return self.is_array(m[0])
        if op == "attr" and t.args[1] in ATTR:
            return self.is_array(t.args[0])
        if op == "idx" and len(t.args[1]) == 1 and slice_of(t.args[1][0]):
            return self.is_array(t.args[0]) or (
                t.args[0].op == "attr" and t.args[0].args[1] == "iloc"
                and self.is_array(t.args[0].args[0]))
        return False

    def column(self, t):
        """t: the column of values of a table"""
        return t.op == "idx" and len(t.args[1]) == 1 and \
            tm.is_str(t.args[1][0]) and t.args[1][0].args[1] == "value" and \
            self.is_array(t.args[0])

    def array_guard(self, g):
        return any(self.is_array(x) for a in tm.b_atoms(g) for x in a.args
                   if isinstance(x, tm.T))

    # ------------------------------------------------------------ size
    def size(self, t):
        op = t.op
        if self.frames(t):
            return call(sym("len"), [self.frames(t)])
        if self.column(t):
            return self.size(t.args[0])
        if tabled(t):
            return self.size(tabled(t))
        if op == "tuple":
            return const(len(t.args))
        if op == "sym":
            n = call(sym("len"), [t])
            for rule in self.rules:
                n = rule(n)
            return n
        if op == "rangeiter":
            return sub(t.args[1], t.args[0])
        if op == "aslist":
            return self.size(t.args[0])
        if op == "comp":
            n = ZERO
            for q, g, e in t.args[1]:
                if not q and g is TRUE:
                    n = add(n, ONE)
                elif len(q) == 1 and self.bound(q[0]) is not None:
                    p = self.skipped(q[0], g)
                    if p is None:
                        return None
                    n = add(n, sub(self.bound(q[0]), const(p)))
                else:
                    return None
            return n
        if op == "cases":
            ns = [(g, self.size(x)) for g, x in t.args[0]]
            if any(n is None for _, n in ns):
                return None
            return tm.cases(ns)
        if op == "poly":
            for _, _, at in t.args[0]:
                for a, _ in at:
                    if self.is_array(a):
                        return self.size(a)
        if op == "call":
            n = fn_name(t)
            if n in SAME or n in ("numpy.cumsum", "cumprod",
                                  "numpy.clip"):
                return self.size(t.args[1][0])
            if n == "itertools.accumulate":
                s = self.size(t.args[1][0])
                return None if s is None else add(
                    s, ONE if "initial" in dict(t.args[2]) else ZERO)
            if n == "numpy.diff":
                s = self.size(t.args[1][0])
                return None if s is None else sub(s, ONE)
            if n == "numpy.where":
                for x in t.args[1][1:]:
                    if self.is_array(x):
                        return self.size(x)
                for a in tm.b_atoms(t.args[1][0]):
                    for x in a.args:
                        if isinstance(x, tm.T) and self.is_array(x):
                            return self.size(x)
            if n in ("numpy.maximum", "numpy.minimum"):
                for x in t.args[1]:
                    if self.is_array(x):
                        return self.size(x)
            p = self.parts(t)
            if p:
                ns = [self.size(x) for x in p]
                if any(n is None for n in ns):
                    return None
                r = ZERO
                for n in ns:
                    r = add(r, n)
                return r
            m = method(t)
            if m and m[1] in KEPT | {"diff", "clip", "total_seconds",
                                     "cumsum", "cumprod", "div", "sub"}:
                return self.size(m[0])
            if m and m[1] == "dropna" and self.from_diff(m[0]):
                s = self.size(m[0])
                return None if s is None else sub(s, ONE)
        if op == "attr":
            return self.size(t.args[0])
        if op == "idx":
            s = slice_of(t.args[1][0])
            if s:
                b = t.args[0]
                if b.op == "attr" and b.args[1] == "iloc":
                    b = b.args[0]
                n = self.size(b)
                a, z = self.ends(s, n)
                if n is None or a is None:
                    return None
                return sub(z, a)
        return None

    def ends(self, s, n):
        """positions a slice starts and stops at"""
        s = list(s) + [NONE] * (3 - len(s))
        if n is None or s[2] not in (NONE, ONE):
            return None, None
        a, z = s[0], s[1]
        a = ZERO if a is NONE else a
        z = n if z is NONE else z
        a, z = [add(n, x) if tm.is_num(x) and x.args[1] < 0 else x
                for x in (a, z)]
        if not tm.is_num(a) and not self.positions:
            return None, None
        return a, z

    def from_diff(self, t):
        m = method(t)
        if t.op == "poly":
            return any(self.from_diff(a) for _, _, at in t.args[0]
                       for a, _ in at)
        return bool(m) and (m[1] == "diff" or m[1] in KEPT
                            and self.from_diff(m[0]))

    def parts(self, t):
        """sequences that t concatenates"""
        m = method(t)
        if m and m[1] in ("union", "append") and len(m[2]) == 1:
            return [m[0], m[2][0]]
        n = fn_name(t)
        if n == "numpy.append" and len(t.args[1]) == 2:
            return [x if self.is_array(x) else tup([x])
                    for x in t.args[1]]
        if n == "numpy.concatenate" and t.args[1][0].op == "tuple":
            return list(t.args[1][0].args)
        if n == "pandas.date_range":
            kw = dict(t.args[2])
            if kw.get("periods") is ONE and len(t.args[1]) <= 1:
                x = t.args[1][0] if t.args[1] else kw.get("start")
                if x is not None:
                    return [tup([x])]
        return None

    def bound(self, x):
        """number of positions of a quantifier"""
        i, dom, ar, sort = x
        if dom.op == "range":
            return dom.args[0]
        d = self.it.strip_iter(dom)
        if ar == 1 and self.is_array(d):
            return self.size(d)
        return None

    def skipped(self, x, g):
        """number of first positions left out, None if that is not all"""
        g = b_and(g, self.care)
        if g is self.care:
            return 0
        i, dom, ar, sort = x
        here = bv(i, 0, sort)
        if dom.op != "range":
            here = mk("pos", dom, here)
        for p in (1, 2):
            if g is b_and(self.care, b_not(tm.a_lt0(sub(here, const(p))))):
                return p
        if g is b_and(self.care, b_not(tm.a_eq0(here))):
            return 1
        return None

    # --------------------------------------------------------- element
    def elem(self, t, i):
        """element of t at position i, None if not known"""
        op = t.op
        if self.frames(t):
            return idx(self.frames(t), (i,))
        if self.column(t):
            return self.elem(t.args[0], i)
        if tabled(t):
            return self.elem(tabled(t), i)
        if op == "sym":
            return idx(t, (i,))
        if op == "tuple":
            if tm.is_num(i):
                return idx(t, (i,))
            if len(t.args) == 1:
                return t.args[0]
            return self.choose([(TRUE, x) for x in t.args], i)
        if op == "rangeiter":
            return add(t.args[0], i)
        if op == "aslist":
            return self.elem(t.args[0], i)
        if op == "cases":
            es = [(g, self.elem(x, i)) for g, x in t.args[0]]
            if any(e is None for _, e in es):
                return None
            return tm.cases(es)
        if op == "comp":
            return self.elem_comp(t, i)
        if op == "poly":
            return self.pointwise(t, i)
        if op == "call":
            n = fn_name(t)
            if n in SAME:
                return self.elem(t.args[1][0], i)
            if n == "numpy.where":
                c, a, b = t.args[1]
                c, a, b = [self.pointwise(x, i) for x in (c, a, b)]
                if None in (c, a, b):
                    return None
                c = tm.a_truthy(c)
                return tm.cases([(c, a), (b_not(c), b)])
            if n in ("numpy.maximum", "numpy.minimum"):
                xs = [self.pointwise(x, i) for x in t.args[1]]
                if None in xs:
                    return None
                return self.it.safe_term(self.it._minmax(
                    n[6:9], xs, {}))
            if n == "numpy.diff":
                x = t.args[1][0]
                a, b = self.elem(x, i), self.elem(x, add(i, ONE))
                return None if a is None or b is None else sub(b, a)
            if n == "numpy.cumsum":
                return self.cumsum(t.args[1][0], i)
            if n == "cumprod":
                return self.cumprod(t.args[1][0], add(i, ONE))
            if n == "itertools.accumulate":
                return self.accumulate(t.args[1], dict(t.args[2]), i)
            if n == "numpy.clip" and len(t.args[1]) > 1:
                return self.clip(t.args[1][0], t.args[1][1:],
                                 dict(t.args[2]), i)
            p = self.parts(t)
            if p:
                return self.concat(p, i)
            m = method(t)
            if not m:
                return None
            if m[1] in KEPT:
                return self.elem(m[0], i)
            if m[1] == "diff":
                a, b = self.elem(m[0], sub(i, ONE)), self.elem(m[0], i)
                return None if a is None or b is None else sub(b, a)
            if m[1] == "dropna" and self.from_diff(m[0]):
                return self.elem(m[0], add(i, ONE))
            if m[1] == "cumsum":
                return self.cumsum(m[0], i)
            if m[1] == "cumprod":
                return self.cumprod(m[0], add(i, ONE))
            if m[1] == "clip":
                return self.clip(m[0], m[2], m[3], i)
            if m[1] == "total_seconds":
                x = self.elem(m[0], i)
                return None if x is None else mul(
                    const(3600), tm.div(x, HOUR))
            if m[1] == "div" and len(m[2]) == 1:
                x, y = self.elem(m[0], i), self.pointwise(m[2][0], i)
                return None if None in (x, y) else tm.div(x, y)
        if op == "attr":
            return self.elem(t.args[0], i)
        if op == "idx":
            s = slice_of(t.args[1][0])
            if s:
                b = t.args[0]
                if b.op == "attr" and b.args[1] == "iloc":
                    b = b.args[0]
                a, z = self.ends(s, self.size(b))
                return None if a is None else self.elem(b, add(i, a))
        return None

    def clip(self, x, args, kw, i):
        lo = kw.get("lower", kw.get("min", kw.get(
            "a_min", args[0] if args else NONE)))
        hi = kw.get("upper", kw.get("max", kw.get(
            "a_max", args[1] if len(args) > 1 else NONE)))
        v = self.elem(x, i)
        if v is None:
            return None
        for n, b in (("max", lo), ("min", hi)):
            if b is not NONE:
                v = self.it.safe_term(self.it._minmax(n, [v, b], {}))
        return v

    def cumsum(self, x, i):
        """sum of the elements up to position i"""
        if x.op == "comp" and len(x.args[1]) == 2 and \
                x.args[1][0][2] is ZERO and not x.args[1][0][0]:
            # a leading zero
            rest = mk("comp", "seq", x.args[1][1:])
            n = i
        else:
            rest, n = x, add(i, ONE)
        q, e = self.it.quant(mk("range", n))
        v = self.elem(rest, e)
        return None if v is None else tm.summation(q, TRUE, v)

    def cumprod(self, x, n):
        """product of the first n elements"""
        if x.op == "comp" and len(x.args[1]) == 2 and \
                x.args[1][0][2] is ONE and not x.args[1][0][0]:
            # a leading one
            x, n = mk("comp", "seq", x.args[1][1:]), sub(n, ONE)
        p = self.parts(x) or ()
        if len(p) == 2 and p[0] is tup([ONE]):
            x, n = p[1], sub(n, ONE)
        q, e = self.it.quant(mk("range", n))
        v = self.elem(x, e)
        return None if v is None else self.norm(self.it.prod(
            self.it.listed(q, v)))

    def accumulate(self, args, kw, i):
        start = kw.get("initial")
        f = args[1] if len(args) > 1 else kw.get("func")
        n = add(i, ONE) if start is None else i
        if f in (None, sym("mod:operator.add")):
            r = self.cumsum(args[0], sub(n, ONE))
            return None if r is None else add(r, start or ZERO)
        if f in (sym("mod:operator.mul"), sym("numpy.multiply")):
            r = self.cumprod(args[0], n)
            return None if r is None else mul(r, start or ONE)
        return None

    def concat(self, parts, i):
        """element of sequences following each other"""
        if len(parts) == 2 and parts[0].op == "tuple" and \
                list(parts[0].args) == [ZERO] and \
                fn_name(parts[1]) == "numpy.cumsum":
            return self.cumsum(parts[1].args[1][0], sub(i, ONE))
        out, start, rest = [], ZERO, TRUE
        for k, p in enumerate(parts):
            e = self.elem(p, sub(i, start))
            if e is None:
                return None
            if k == len(parts) - 1:
                out.append((rest, e))
                break
            n = self.size(p)
            if n is None:
                return None
            start = add(start, n)
            here = tm.a_lt0(sub(i, start))
            out.append((b_and(rest, here), e))
            rest = b_and(rest, b_not(here))
        return tm.cases(out)

    def choose(self, items, i):
        out, rest = [], TRUE
        for k, (g, x) in enumerate(items):
            here = tm.a_eq0(sub(i, const(k)))
            if k == len(items) - 1:
                here = TRUE
            out.append((b_and(rest, here), x))
            rest = b_and(rest, b_not(here))
        return tm.cases(out)

    def elem_comp(self, t, i):
        segs = t.args[1]
        first = []
        for k, (q, g, e) in enumerate(segs):
            if not q and g is TRUE:
                first.append(e)
                continue
            if k != len(segs) - 1 or len(q) != 1:
                return None
            s = self.it.refresh(_Seg(q, g, e))
            p = self.skipped(s.q[0], s.g)
            if p is None:
                return None
            x = self.at(s.q[0], s.e, sub(i, const(len(first) - p)))
            if x is None:
                return None
            # elements ahead often continue the series
            ahead = len(first) - p
            while first:
                y = self.at(s.q[0], s.e, const(len(first) - 1 - ahead))
                if y is None or self.norm(y) is not self.norm(first[-1]):
                    break
                first.pop()
            out = [(TRUE, y) for y in first]
            return self.choose(out + [(TRUE, x)], i) if first else x
        if tm.is_num(i):
            k = int(i.args[1])
            return first[k] if k < len(first) else None
        return self.choose([(TRUE, x) for x in first], i)

    def at(self, x, e, i):
        """e with the quantified variable at position i of its domain"""
        j, dom, ar, sort = x
        if dom.op == "range":
            return self.norm(tm.subst(e, {bv(j, 0, sort): i}))
        d = self.it.strip_iter(dom)
        if ar != 1 or not self.is_array(d):
            return None
        v = self.elem(d, i)
        if v is None:
            return None
        here = bv(j, 0, sort)
        e = tm.subst(e, {mk("pos", dom, here): i})
        return self.norm(tm.subst(e, {here: v}))

    def pointwise(self, t, i):
        """t with each sequence in it replaced by its element at i"""
        if tm.is_guard(t):
            bad = []

            def g(x):
                v = self.pointwise(x, i)
                if v is None:
                    bad.append(x)
                    return x
                return v
            if not self.array_guard(t):
                return t
            r = tm.rebuild(t, g) if t.op == "bdd" else \
                tm.rebuild_atom(t, g)
            return None if bad else r
        if not self.is_array(t):
            return t
        if t.op == "poly":
            r = ZERO
            for q, parts, atoms in t.args[0]:
                v = ONE
                for a, k in atoms:
                    x = self.pointwise(a, i)
                    if x is None:
                        return None
                    for _ in range(abs(k)):
                        v = mul(v, x) if k > 0 else tm.div(v, x)
                c = tm.mk("poly", ((q, parts, ()),))
                c = ZERO
                for w, gd in parts:
                    c = add(c, tm.summation(q, gd, mul(const(w), v)))
                r = add(r, c)
            return r
        return self.elem(t, i)

    # ------------------------------------------------------ normal form
    def norm(self, t):
        r = self.memo.get(t)
        if r is None:
            if t.op in ("const", "sym", "bv", "true", "false", "undef",
                        "card"):
                r = t
            elif t.op == "bdd":
                a, hi, lo = t.args
                r = tm.b_ite(self.atom(tm.rebuild_atom(a, self.norm)),
                             self.norm(hi), self.norm(lo))
            else:
                r = self.step(tm.rebuild(t, self.norm))
            self.memo[t] = r
        return r

    def step(self, t):
        if wall(t):
            return HOUR
        for rule in self.rules:
            t = rule(t)
        if t.op == "idx" and t.args[1] == (const("value"),) and \
                t.args[0].op == "idx" and self.frames(t.args[0].args[0]):
            return t.args[0]
        if t.op == "idx" and len(t.args[1]) == 1 and (
                t.args[0].op == "attr" and t.args[0].args[1] == "iloc") and \
                self.frames(t.args[0].args[0]) and not slice_of(
                    t.args[1][0]):
            return idx(self.frames(t.args[0].args[0]), t.args[1])
        if fn_name(t) == "numpy.cumprod":
            return call(sym("cumprod"), t.args[1][:1])
        if t.op == "idx" and t.args[0].op == "attr" and t.args[0].args[
                1] == "iloc" and t.args[0].args[0].op == "idx" and t.args[
                0].args[0].args[1] == (const("value"),) and not slice_of(
                t.args[1][0]) and self.frames(t.args[0].args[0].args[0]):
            return idx(self.frames(t.args[0].args[0].args[0]), t.args[1])
        if t.op == "idx" and len(t.args[1]) == 1 and constant(
                t.args[0]) is not None:
            return constant(t.args[0])
        if t.op == "comp" and any(g is FALSE for _, g, _ in t.args[1]):
            t = mk("comp", t.args[0], tuple(
                s for s in t.args[1] if s[1] is not FALSE))
        if t.op == "idx" and len(t.args[1]) == 1 and not tm.is_guard(
                t.args[1][0]) and not tm.is_str(t.args[1][0]) and \
                self.is_array(t.args[0]) and not slice_of(t.args[1][0]):
            k = t.args[1][0]
            if tm.is_num(k) and k.args[1] < 0:
                n = self.size(t.args[0])
                if n is not None:
                    k = add(n, k)
            x = self.elem(t.args[0], k)
            return t if x is None else x
        if fn_name(t) == "len" and self.is_array(t.args[1][0]):
            n = self.size(t.args[1][0])
            return t if n is None else n
        if t.op == "binop" and t.args[0] == "FloorDiv" and all(
                fn_name(x) == "len" for x in t.args[1:]):
            return call(sym("int"), [tm.div(*t.args[1:])])
        if fn_name(t) in ("max", "min") and len(t.args[1]) == 2 and \
                not t.args[2]:
            a, b = t.args[1]
            less = tm.a_lt0(sub(a, b) if fn_name(t) == "min" else sub(b, a))
            return tm.cases([(less, a), (b_not(less), b)])
        if t.op == "nth" and self.is_array(t.args[0]):
            k = t.args[1]
            if tm.is_num(k) and k.args[1] < 0:
                n = self.size(t.args[0])
                if n is not None:
                    k = add(n, k)
            x = self.elem(t.args[0], k)
            return t if x is None else x
        if t.op == "pos" and t.args[1].op == "idx" and \
                self.it.strip_iter(t.args[0]) is t.args[1].args[0]:
            return t.args[1].args[1][0]
        if t.op == "comp":
            return mk("comp", t.args[0], tuple(
                self.ranged(s) for s in t.args[1]))
        return t

    def ranged(self, s):
        """iteration over positions instead of elements"""
        q, g, e = s
        if len(q) != 1 or q[0][1].op == "range":
            return s
        d = self.it.strip_iter(q[0][1])
        if q[0][2] != 1 or not self.is_array(d) or self.size(d) is None:
            return s
        x = self.it.refresh(_Seg(q, g, e))
        p, k = self.it.quant(mk("range", self.size(d)))
        e2, g2 = self.at(x.q[0], x.e, k), self.at(x.q[0], x.g, k)
        if e2 is None or g2 is None:
            return s
        return self.it._canon_seg(p, g2, e2)

    def atom(self, f):
        """a condition whose outermost atom may be about any element"""
        if f.op != "bdd" or f.args[1] is not TRUE or \
                f.args[2] is not FALSE:
            return f
        r = self.some(f.args[0])
        return f if r is f.args[0] else r

    def some(self, t):
        if t.op == "is" and NONE in t.args and any(
                self.is_array(x) for x in t.args):
            return FALSE
        if t.op in ("lt0", "eq0"):
            return self.extreme(t)
        return self.some_element(t)

    def extreme(self, t):
        """the least or greatest element compared with something"""
        ps = tm.as_poly(t.args[0]).terms
        found = [(a, c) for (q, g, at), c in ps.items() if not q
                 and g is TRUE for a, k in at if len(at) == 1 and k == 1
                 and self.of_array(a)]
        if t.op != "lt0" or len(found) != 1:
            return t
        a, c = found[0]
        x = method(a)[0] if method(a) else a.args[1][0]
        least = "min" in (method(a) or ("", fn_name(a)))[1]
        n = self.size(x)
        if n is None:
            return t
        q, k = self.it.quant(mk("range", n))
        e = self.elem(x, k)
        if e is None:
            return t
        f = self.norm(tm.a_lt0(add(t.args[0], mul(const(c), sub(e, a)))))
        if least == (c > 0):
            return self.it.exists(q, f)
        return b_not(self.it.exists(q, b_not(f)))

    def of_array(self, t):
        m = method(t)
        if m and m[1] in ("min", "max") and not m[2]:
            return self.is_array(m[0])
        return fn_name(t) in ("min", "max", "numpy.min", "numpy.max") and \
            len(t.args[1]) == 1 and self.is_array(t.args[1][0])

    def some_element(self, t):
        """any element fulfils a condition"""
        if t.op == "any" and t.args[0].op == "comp":
            out = FALSE
            for q, g, e in t.args[0].args[1]:
                q, g2, e = self.ranged((q, g, e))
                out = tm.b_or(out, self.it.exists(*self._fresh(
                    q, b_and(g2, tm.a_truthy(e)))))
            return out
        if t.op == "truthy":
            m = method(t.args[0])
            if m and m[1] in ("any", "all") and not m[2]:
                x = m[0]
            elif fn_name(t.args[0]) in ("numpy.any", "numpy.all"):
                x = t.args[0].args[1][0]
                m = (x, fn_name(t.args[0])[6:])
            else:
                return t
            n = None
            if tm.is_guard(x):
                for a in tm.b_atoms(x):
                    for y in a.args:
                        if isinstance(y, tm.T) and n is None:
                            n = self.array_size(y)
            else:
                n = self.size(x)
            if n is None:
                return t
            q, k = self.it.quant(mk("range", n))
            c = self.pointwise(x, k)
            if c is None:
                return t
            c = self.norm(tm.a_truthy(c))
            if m[1] == "any":
                return self.it.exists(q, c)
            return b_not(self.it.exists(q, b_not(c)))
        return t

    def array_size(self, t):
        if self.is_array(t):
            return self.size(t)
        return None

    def _fresh(self, q, c):
        s = self.it.refresh(_Seg(q, c, NONE))
        return s.q, s.g

    # ------------------------------------------------------- comparison
    def differ(self, a, b, care, differ_terms, depth=0):
        """description of a difference of sequences or values"""
        x, y = self.norm(a), self.norm(b)
        d = differ_terms(x, y, care)
        if not d:
            return None
        for g, u in _leaves(x):
            for h, v in _leaves(y):
                both = b_and(g, h, care)
                if both is FALSE or not differ_terms(u, v, both):
                    continue
                if not self.is_array(u) or not self.is_array(v) or depth > 2:
                    return d
                m, n = self.size(u), self.size(v)
                if m is None or n is None:
                    return d
                e = differ_terms(self.norm(m), self.norm(n), both)
                if e:
                    return "has a length that " + e
                q, k = self.it.quant(mk("range", self.norm(n)))
                p, r = self.elem(u, k), self.elem(v, k)
                if p is None or r is None:
                    return d
                inside = b_and(both, tm.a_lt0(sub(k, self.norm(n))))
                e = self.differ(p, r, inside, differ_terms, depth + 1)
                if e:
                    return f"at position {tm.show(k)} " + e
        return None


def _leaves(t):
    if t.op == "cases":
        return [(b_and(g, h), y) for g, x in t.args[0]
                for h, y in _leaves(x)]
    return [(TRUE, t)]


class _Seg:
    def __init__(self, q, g, e):
        self.q, self.g, self.e = q, g, e
        self.k = None
        self.additive = False
