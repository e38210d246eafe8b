"""Tables (pandas.DataFrame) as sets of guarded rows

A table is a list of rows, each for all elements of its quantifiers for which
its guard holds, with a value for every column.  Columns keep the rows they
are from, so that what is done with a column is done with the value of each
row."""
import ast

from . import interp as ip
from . import terms as tm
from .terms import (FALSE, NONE, TRUE, T, a_is, b_and, b_not, b_or, call,
                    const, is_guard, is_str, lit, mk, pyval, sym, tup)

MISSING = sym("numpy.nan")


class Tabular:
    pass


class Row:
    __slots__ = ("id", "q", "g", "cols")
    count = 0

    def __init__(self, q, g, cols, id=None):
        if id is None:
            Row.count += 1
            id = Row.count
        self.id, self.q, self.g, self.cols = id, tuple(q), g, cols

    def w(self, g=None, cols=None):
        return Row(self.q, self.g if g is None else g,
                   dict(self.cols if cols is None else cols), self.id)


class Table(Tabular):
    def __init__(self, rows, names, order=()):
        self.rows, self.names, self.order = rows, list(names), tuple(order)

    def copy(self):
        return Table([r.w() for r in self.rows], self.names, self.order)


class Column(Tabular):
    def __init__(self, vals):
        self.vals = vals        # row id -> (q, g, value)


class Acc(Tabular):
    """loc, str of a table or a column"""

    def __init__(self, kind, base):
        self.kind, self.base = kind, base


class Groups(Tabular):
    def __init__(self, table, by):
        self.table, self.by = table, by


def isna(v):
    if v is NONE or v is MISSING:
        return TRUE
    if v.op == "attr" and v.args[1] == "value":
        return a_is(v, NONE)    # values of variables are numbers or None
    if v.op == "cases":
        return b_or(*[b_and(g, isna(x)) for g, x in v.args[0]])
    if v.op in ("tuple", "bv", "const") or tm.is_text(v) or v.op == "idx" \
            and v.args[0].op == "bv":
        return FALSE
    return lit(mk("truthy", call(sym("pandas.isna"), [v])))


def given_dict(it, kw):
    """keyword arguments or a mapping with constant keys"""
    if isinstance(kw, ip.DictObj) and all(
            not s.q and s.g is TRUE and is_str(s.k) for s in kw.segs):
        return {pyval(s.k): s.e for s in kw.segs}
    return None


def names_of(it, v):
    """names in a list of names or in a name"""
    if isinstance(v, T) and is_str(v):
        return [pyval(v)]
    u = it.unpack_any(v) if v is not None else None
    if u is None or not all(isinstance(x, T) and is_str(x) for x in u):
        return None
    return [pyval(x) for x in u]


def make(it, args, kw, node):
    """pandas.DataFrame(data, columns=names)"""
    kw = dict(kw)
    if not args and "data" in kw:
        args = [kw.pop("data")]
    if len(args) == 2:
        kw["columns"] = args[1]
    names = names_of(it, kw.pop("columns", None))
    if not args or kw or not isinstance(args[0], (ip.ListObj, ip.DictObj)):
        return None
    data = args[0]
    if isinstance(data, ip.DictObj):
        cols = given_dict(it, data)
        if cols is None or not cols:
            return None
        lists = {k: it.iterate(v) if isinstance(v, ip.ListObj) else None
                 for k, v in cols.items()}
        if None in lists.values():
            return None
        return parallel(it, lists)
    rows = []
    for s in it.iterate(data):
        if isinstance(s.e, ip.DictObj):
            d = given_dict(it, s.e)
            if d is None:
                return None
        else:
            u = it.unpack_any(s.e)
            if u is None or names is None or len(u) != len(names):
                return None
            d = dict(zip(names, u))
        rows.append(Row(s.q, ip.met(s.g), {k: it.safe_term(v)
                                           for k, v in d.items()}))
    if names is None:
        names = list(rows[0].cols) if rows else []
    return Table(rows, names)


def parallel(it, lists):
    """columns made alike, element by element"""
    first = list(lists.values())[0]
    rows = []
    if len({len(x) for x in lists.values()}) != 1:
        return None
    for n, s in enumerate(first):
        cols = {}
        for k, segs in lists.items():
            o = segs[n]
            if len(o.q) != len(s.q):
                return None
            m = {}
            for (i, d, ar, so), (j, d2, ar2, so2) in zip(s.q, o.q):
                if ip.subst(d2, m) is not d or ar != ar2:
                    return None
                m.update({ip.bv(j, c, so2): ip.bv(i, c, so)
                          for c in range(ar)})
            if ip.subst(o.g, m) is not s.g:
                return None
            cols[k] = ip.subst(it.safe_term(o.e), m)
        rows.append(Row(s.q, ip.met(s.g), cols))
    return Table(rows, list(lists))


def at(it, q, g, f):
    """value of f() for each element"""
    d, pc = len(it.ctx), it.pc
    it.ctx.extend(q)
    it.pc = b_and(pc, g)
    try:
        return it.safe_term(f())
    finally:
        del it.ctx[d:]
        it.pc = pc


def mapped(it, col, f):
    return Column({i: (q, g, at(it, q, g, lambda: f(v)))
                   for i, (q, g, v) in col.vals.items()})


def column(t, name):
    return Column({r.id: (r.q, r.g, r.cols.get(name, MISSING))
                   for r in t.rows})


def holds(it, mask, row):
    if row.id not in mask.vals:
        return FALSE
    v = mask.vals[row.id][2]
    return v if is_guard(v) else it.truth(v)


def filtered(it, t, mask):
    rows = []
    for r in t.rows:
        g = b_and(r.g, holds(it, mask, r))
        if g is not FALSE:
            rows.append(r.w(g=g))
    return Table(rows, t.names, t.order)


def values(it, t, v):
    """a value for every row of the table, or None"""
    if isinstance(v, Column):
        return {r.id: v.vals[r.id][2] if r.id in v.vals else MISSING
                for r in t.rows}
    if isinstance(v, ip.ListObj):
        if len(v.segs) != len(t.rows):
            return None
        out = {}
        for s, r in zip(it.iterate(v), t.rows):
            if len(s.q) != len(r.q) or any(
                    a[2] != b[2] for a, b in zip(s.q, r.q)):
                return None
            m = {ip.bv(b[0], c, b[3]): ip.bv(a[0], c, a[3])
                 for a, b in zip(r.q, s.q) for c in range(a[2])}
            if ip.subst(s.g, m) is not r.g:
                return None
            out[r.id] = ip.subst(it.safe_term(s.e), m)
        return out
    if isinstance(v, Tabular):
        return None
    x = it.safe_term(v)
    return {r.id: x for r in t.rows}


def put(it, t, name, v, mask=None):
    new = values(it, t, v)
    if new is None:
        return False
    if t.order and name in t.order:
        t.order = ()
    for r in t.rows:
        x = new[r.id]
        if mask is not None:
            x = ip.ite(holds(it, mask, r), x, r.cols.get(name, MISSING))
        r.cols[name] = x
    if name not in t.names:
        t.names.append(name)
    return True


def raw(it, s, fr):
    if isinstance(s, ast.Tuple):
        return [raw(it, x, fr) for x in s.elts]
    if isinstance(s, ast.Slice):
        return ":" if s.lower is s.upper is s.step is None else None
    return it.ev(s, fr)


def unknown(it, node):
    return it.note_unknown("statement: use of a table", node)


def subscript(it, base, s, fr, node):
    k = raw(it, s, fr)
    if isinstance(base, Acc):
        if base.kind == "str" and isinstance(k, T):
            return mapped(it, base.base,
                          lambda v: it.subscript(v, k, node))
        if base.kind == "loc" and isinstance(base.base, Table):
            t = base.base
            k = k if isinstance(k, list) else [k, ":"]
            if k[0] == ":" or isinstance(k[0], Column):
                u = t if k[0] == ":" else filtered(it, t, k[0])
                return u if k[1] == ":" else part(it, u, k[1], node)
        if base.kind == "loc" and isinstance(base.base, Column) and \
                isinstance(k, Column):
            return chosen(it, base.base, k)
        return unknown(it, node)
    if isinstance(base, Table):
        if isinstance(k, Column):
            return filtered(it, base, k)
        return part(it, base, k, node)
    if isinstance(base, Column) and isinstance(k, Column):
        return chosen(it, base, k)
    return unknown(it, node)


def chosen(it, col, mask):
    return Column({i: (q, b_and(g, mask.vals[i][2]), v)
                   for i, (q, g, v) in col.vals.items() if i in mask.vals
                   and is_guard(mask.vals[i][2])})


def part(it, t, k, node):
    if isinstance(k, T) and is_str(k):
        if pyval(k) not in t.names:
            return unknown(it, node)
        return column(t, pyval(k))
    ns = names_of(it, k)
    if ns is None or any(n not in t.names for n in ns):
        return unknown(it, node)
    return Table([r.w() for r in t.rows], ns, t.order)


def setitem(it, base, s, v, fr, node):
    k = raw(it, s, fr)
    if isinstance(base, Table) and isinstance(k, T) and is_str(k):
        if put(it, base, pyval(k), v):
            return
    if isinstance(base, Acc) and base.kind == "loc" and isinstance(
            base.base, Table) and isinstance(k, list) and len(k) == 2 and \
            isinstance(k[1], T) and is_str(k[1]):
        if k[0] == ":" and put(it, base.base, pyval(k[1]), v):
            return
        if isinstance(k[0], Column) and put(
                it, base.base, pyval(k[1]), v, k[0]):
            return
    unknown(it, node)


def getattr_(it, base, name):
    if name in ("loc", "str", "at", "iloc"):
        return Acc(name, base)
    if isinstance(base, Table) and name in base.names:
        return column(base, name)
    if isinstance(base, Table) and name == "columns":
        return ip.ListObj("list", [ip.Seg((), TRUE, const(n))
                                   for n in base.names], len(it.ctx))
    if isinstance(base, Column) and name == "values":
        return base
    return ip.TMethod(base, name, None)


def change(it, t, new, kw):
    """the changed table, or a change of the table itself"""
    x = kw.get("inplace")
    if x is not None and it.truth(x) is TRUE:
        t.rows, t.names, t.order = new.rows, new.names, new.order
        return NONE
    return new


def method(it, base, name, args, kw, node):
    kw = dict(kw)
    if isinstance(base, Column):
        if name in ("map", "apply") and len(args) == 1 and not kw:
            f = args[0]
            if isinstance(f, ip.DictObj):
                return mapped(it, base, lambda v: it.dict_get(f, v, node))
            return mapped(it, base,
                          lambda v: it.call_value(f, [v], {}, node))
        if name in ("isna", "isnull", "notna", "notnull"):
            return mapped(it, base, lambda v: isna(v) if name[0] == "i"
                          else b_not(isna(v)))
        if name in ("eq", "ne") and len(args) == 1:
            op = ast.Eq() if name == "eq" else ast.NotEq()
            return compare(it, op, base, args[0], node)
        if name == "isin" and len(args) == 1:
            return mapped(it, base, lambda v: it.contains(v, args[0]))
        if name in ("where", "mask") and len(args) == 2 and isinstance(
                args[0], Column):
            other = args[1]
            return Column({i: (q, g, ip.ite(
                args[0].vals[i][2] if name == "where" else b_not(
                    args[0].vals[i][2]), v,
                other.vals[i][2] if isinstance(other, Column)
                else it.safe_term(other)))
                for i, (q, g, v) in base.vals.items()})
        if name in ("to_list", "tolist", "to_numpy", "copy", "astype"):
            return ip.ListObj("list", iterate(it, base), len(it.ctx)) \
                if name[:2] == "to" else base
        return unknown(it, node)
    if isinstance(base, Acc):
        if base.kind == "str" and name == "get" and len(args) == 1:
            return mapped(it, base.base, lambda v: it.subscript(
                v, it.safe_term(args[0]), node))
        return unknown(it, node)
    if isinstance(base, Groups):
        return unknown(it, node)
    t = base
    if name == "copy":
        return t.copy()
    if name == "dropna":
        ns = names_of(it, kw["subset"]) if "subset" in kw else t.names
        if ns is None or set(kw) - {"subset", "inplace", "axis"}:
            return unknown(it, node)
        rows = []
        for r in t.rows:
            g = b_and(r.g, *[b_not(isna(r.cols.get(n, MISSING)))
                             for n in ns])
            if g is not FALSE:
                rows.append(r.w(g=g))
        return change(it, t, Table(rows, t.names, t.order), kw)
    if name == "sort_values":
        by = names_of(it, args[0] if args else kw.get("by"))
        up = kw.get("ascending", ip.PYTRUE)
        ups = it.unpack_any(up)
        ups = [up] if ups is None else ups
        if by is None or not all(it.truth(u) is TRUE for u in ups) or set(
                kw) - {"by", "ascending", "inplace", "ignore_index", "kind"}:
            return unknown(it, node)
        return change(it, t, Table([r.w() for r in t.rows], t.names, by), kw)
    if name == "reset_index":
        return change(it, t, t.copy(), kw)
    if name == "drop":
        ns = names_of(it, kw.get("columns", args[0] if args else None))
        if ns is None:
            return unknown(it, node)
        return change(it, t, Table([r.w() for r in t.rows], [
            n for n in t.names if n not in ns], t.order), kw)
    if name == "rename":
        m = given_dict(it, kw.get("columns"))
        if m is None or not all(is_str(v) for v in m.values()):
            return unknown(it, node)
        m = {k: pyval(v) for k, v in m.items()}
        return change(it, t, Table([r.w(cols={
            m.get(k, k): v for k, v in r.cols.items()}) for r in t.rows], [
            m.get(n, n) for n in t.names], [m.get(n, n) for n in t.order]),
            kw)
    if name == "assign":
        new = t.copy()
        for k, v in kw.items():
            if isinstance(v, ip.Closure):
                v = it.call_value(v, [new], {}, node)
            if not put(it, new, k, v):
                return unknown(it, node)
        return new
    if name == "insert" and len(args) == 3 and is_str(args[1]):
        if put(it, t, pyval(args[1]), args[2]):
            return NONE
    if name == "apply" and len(args) == 1 and "axis" in kw:
        return Column({r.id: (r.q, r.g, at(it, r.q, r.g, lambda r=r:
                                           it.call_value(args[0], [
                                               ip.DictObj([ip.Seg(
                                                   (), TRUE, v, k=const(k))
                                                   for k, v in
                                                   r.cols.items()],
                                                   len(it.ctx))], {}, node)))
                       for r in t.rows})
    return unknown(it, node)


def iterate(it, v):
    if isinstance(v, Column):
        return [it.refresh(ip.Seg(q, g, x)) for q, g, x in v.vals.values()]
    if isinstance(v, Table):
        return [ip.Seg((), TRUE, const(n)) for n in v.names]
    return None


def compare(it, op, a, b, node):
    if not isinstance(a, Column):
        return compare(it, op, b, a, node)

    def f(v, w):
        g = it.compare(op, v, w, node)
        return g if isinstance(g, T) else it.truth(g)
    if isinstance(b, Column):
        return Column({i: (q, g, at(it, q, g, lambda: f(v, b.vals[i][2])))
                       for i, (q, g, v) in a.vals.items() if i in b.vals})
    return mapped(it, a, lambda v: f(v, b))


def connect(it, op, a, b):
    """a & b, a | b"""
    f = b_and if isinstance(op, ast.BitAnd) else b_or
    return Column({i: (q, g, f(v, b.vals[i][2]))
                   for i, (q, g, v) in a.vals.items() if i in b.vals})


def invert(col):
    return Column({i: (q, g, b_not(v)) for i, (q, g, v) in col.vals.items()})


def rows(it, t, names):
    """the rows as list of tuples"""
    return ip.ListObj("list", [ip.Seg(r.q, r.g, tup(
        [r.cols.get(n, MISSING) for n in names])) for r in t.rows], 0)


# ------------------------------------------------------------- comparison
INDEX = ("index_set", "keys")


def renamed(t):
    """names of components as strings, and their parts, one way"""
    m = {}
    todo = [t]
    while todo:
        x = todo.pop()
        todo += tm._walk_args(x.args)
        if x.op == "attr" and x.args[1] == "name" and x.args[0].op == "bv":
            m[x] = call(sym("str"), [x.args[0]])
        elif x.op == "attr" and x.args[1] == "local_name":
            m[x] = tm.idx(call(tm.attr(call(sym("str"), [x.args[0]]),
                                       "split"), [const(".")]),
                          (const(-1),))
        elif x.op == "idx" and x.args[0].op == "call" and len(
                x.args[1]) == 1 and x.args[0].args[0].op == "attr":
            f, a, k = x.args[0].args
            n, at = f.args[1], x.args[1][0]
            if a and not k and (
                    n == "split" and len(a) == 2 and at is tm.ZERO
                    or n == "rsplit" and at is const(-1)
                    or n == "partition" and at is tm.ZERO
                    or n == "rpartition" and at in (const(-1), const(2))):
                m[x] = tm.idx(call(tm.attr(f.args[0], "split"), a[:1]),
                              (at if at is tm.ZERO else const(-1),))
    return m


def by_variable(q, terms):
    """what is done for the data of variables, by variable and index"""
    m, out = {}, []
    for i, d, ar, so in q:
        d = ip.subst(d, m)
        n = len(out)
        f = d.args[0] if d.op == "call" else d
        kind = f.args[1] if d.op == "call" and f.op == "attr" else None
        v, k = ip.bv(f"row{n}"), ip.bv(f"row{n + 1}")
        if kind == "component_data_objects" and ar == 1:
            d = call(tm.attr(f.args[0], "component_objects"), d.args[1],
                     d.args[2])
            out += [(v, d), (k, tm.attr(v, "_index_set"))]
            x = ip.bv(i, 0, so)
            m[call(tm.attr(x, "parent_component"))] = v
            m[call(tm.attr(x, "index"))] = k
            m[x] = tm.idx(v, (k,))
            continue
        if kind == "values" and ar == 1 and f.args[0].op == "bv":
            m[ip.bv(i, 0, so)] = tm.idx(f.args[0], (v,))
            d = tm.attr(f.args[0], "_index_set")
        elif kind in INDEX and f.args[0].op == "bv":
            d = tm.attr(f.args[0], "_index_set")
        elif d.op == "bv" and any(x is d and "component_objects" in e.key
                                  for x, e in out):
            d = tm.attr(d, "_index_set")
        for c in range(ar):
            m.setdefault(ip.bv(i, c, so), ip.bv(f"row{n}", c))
        out.append((v, d))
    terms = [ip.subst(t, m) for t in terms]
    terms = [ip.subst(t, renamed(t)) for t in terms]
    for n in range(len(out) - 1, -1, -1):
        v, d = out[n]
        if d.op == "attr" and d.args[1] == "_index_set" and not any(
                v.args[0] in t.free for t in terms) and len(out) > n + 1:
            del out[n]      # each variable has at least one
            w = ip.bv(f"row{n}")
            for o in range(n, len(out)):
                x, e = out[o]
                m = {x: ip.bv(f"row{o}")}
                out[o] = (m[x], e)
                terms = [ip.subst(t, m) for t in terms]
    return tuple(out), terms


def plain_rows(rs):
    """{(quantifiers, values): guard} with values that are not cases"""
    out = {}
    for q, g, e in rs:
        q, (g, *e) = by_variable(q, [g] + list(e))
        todo = [(g, ())]
        for x in e:
            new = []
            for g2, vs in todo:
                for c, v in x.args[0] if x.op == "cases" else ((TRUE, x),):
                    c = b_and(g2, c)
                    if c is not FALSE:
                        new.append((c, vs + (v,)))
            todo = new
        for c, vs in todo:
            out[q, vs] = b_or(out.get((q, vs), FALSE), c)
    return out


FLOW = const("flow")


def facts_of(atoms):
    """flows belong to two nodes and a time step"""
    out = TRUE
    flow = [a for a in atoms if a.op == "eq" and FLOW in a.args]
    for a in flow:
        for b in atoms:
            if b.op == "isinstance" and tm.show(b.args[1]).endswith(
                    "tuple"):
                out = b_and(out, b_or(b_not(lit(a)), lit(b)))
            if b.op == "any" and len(b.args[0].args[1]) == 1:
                q, g, e = b.args[0].args[1][0]
                if len(q) == 1 and q[0][1].op == "idx" and \
                        q[0][1].args[1][0].op == "slice":
                    x = b_not(e)
                    if x.op == "bdd" and x is lit(x.args[0]) and \
                            x.args[0].op == "isinstance":
                        out = b_and(out, b_not(b_and(lit(a), lit(b))))
    return out
