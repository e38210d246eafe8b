"""Comparison units: one entry point of the repository against its
specification."""
import ast
import os

from . import compare as cp
from . import tables
from . import terms as tm
from .arrays import Arrays
from .drive import new_interp, cls_of
from .interp import (CasesV, ClassRef, Closure, DictObj, Interp, Seg,
                     ListObj, M, ObjRef)
from .source import PKG, Module, Repo
from .terms import bv, sym, b_and, b_not, b_or, a_is, NONE, TRUE

HERE = os.path.dirname(os.path.abspath(__file__))
SPECS = os.path.join(HERE, "specs")


class Broken(Exception):
    """the analysis could not give an answer"""


class Result:
    def __init__(self, unit):
        self.unit = unit
        self.findings = []      # cp.Finding
        self.spec_n = self.code_n = 0
        self.spec_tags = {}
        self.unknown = []
        self.functions = set()
        self.rels = []
        self.notes = []

    def merge(self, other):
        self.findings += other.findings
        self.spec_n += other.spec_n
        self.code_n += other.code_n
        for t, n in other.spec_tags.items():
            self.spec_tags[t] = self.spec_tags.get(t, 0) + n
        self.unknown += other.unknown
        self.functions |= other.functions
        self.rels += other.rels
        self.it = getattr(other, "it", None)


_spec_mods = {}


def load_spec(repo, name):
    for f in sorted(os.listdir(SPECS)):
        n = "spec." + f[:-3]
        if f.endswith(".py") and n not in repo.modules:
            m = repo.modules[n] = Module(n, os.path.join(SPECS, f), False)
            m.collect()
    return repo.modules["spec." + name]


def run_spec(repo, mod, fn, args, owner=None, setup=None):
    it = new_interp(repo)
    it.owner = owner
    if setup:
        setup(it)
    node = mod.defs.get(fn)
    if node is None:
        raise Broken(f"specification {mod.name}:{fn} missing")
    it.call_value(Closure(node, None, mod), args, {}, None)
    if it.unknown:
        raise Broken(f"specification {fn} not understood: {it.unknown[:3]}")
    return it


def run_block(repo, name, elemclass=None):
    it = new_interp(repo)
    c = cls_of(repo, name)
    if c is None:
        raise Broken(f"class {name} not found")
    grp = "FGROUP" if name.endswith("FlowBlock") else "GROUP"
    g = sym(f"{grp}:{name}")
    if elemclass:
        it.dom_class[g] = cls_of(repo, elemclass)
    self = ObjRef(sym(name), c)
    it.owner = self
    f = it.class_attr(c, "_create", self)
    if f is None:
        raise Broken(f"{name}._create not found")
    it.call_value(f, [], {"group": g}, None)
    it.pc = TRUE
    f = it.class_attr(c, "_objective_expression", self)
    if f is not None:
        v = it.call_value(f, [], {}, None)
        it.loc = (f.module.path, f.node.lineno)
        it.fnstack.append("_objective_expression")
        it.emit("objective", "objective", (None, it.term(v), None))
        it.pc = TRUE
        d = it.heap.get((self.term, "period_investment_costs"))
        if d is not None:
            it.emit("expression", "period_investment_costs", (
                None, it.safe_term(it.subscript(d, tm.bv("PP", 0, "nat:PERIODS"), None)), None))
        it.fnstack.pop()
    return it, self, g


def values(it, kind):
    """{name: (guarded value, locs)} of named expressions / objective"""
    out = {}
    for e in it.effects:
        if e.kind != kind:
            continue
        nm = e.name if kind == "expression" else "objective"
        v = e.v[1]
        out.setdefault(nm, []).append((e.q, e.g, v, e.loc, e.fn, e.name))
    return out


def compare_block(repo, name, specmod, elemclass=None):
    r = Result(name)
    it, self, g = run_block(repo, name, elemclass)
    if it.unknown:
        r.unknown += it.unknown

    forms = set()

    def setup(i2):
        i2.forms = forms
        if elemclass:
            i2.dom_class[g] = cls_of(repo, elemclass)
    assume = b_not(a_is(g, NONE))

    def against(r):
        st = run_spec(repo, specmod, name, [self, g], owner=self, setup=setup)
        compare_effects(it, st, r, assume)
        return r, st
    unknown = list(r.unknown)
    r, st = against(r)
    if r.findings and st.forms_seen:
        # the other way to state the same relations
        forms |= st.forms_seen
        r2 = Result(name)
        r2.unknown += unknown
        r2, st2 = against(r2)
        if len(r2.findings) < len(r.findings):
            r, st = r2, st2
    r.functions |= it.visited_functions
    return r, it, st


def compare_effects(it, st, r, assume):
    code, unk = cp.effects_to_recs(it)
    r.unknown += [(l[0], l[1], w) for l, w in unk]
    spec, unk2 = cp.effects_to_recs(st)
    if unk2:
        raise Broken(f"specification: {unk2}")
    facts = cp.raise_facts(it) + cp.raise_facts(st)
    code, spec = cp.drop_raises(code, facts), cp.drop_raises(spec, facts)
    f, ns, nc, tags = cp.compare(code, spec, assume)
    for t, n in tags.items():
        r.spec_tags[t] = r.spec_tags.get(t, 0) + n
    for e in st.effects:
        if e.kind in ("objective", "expression"):
            r.spec_tags[e.name] = r.spec_tags.get(e.name, 0) + 1
        if e.kind == "expression":
            for n in ("expression:" + e.name, "expression"):
                r.spec_tags[n] = r.spec_tags.get(n, 0) + 1
    r.findings += f
    r.spec_n += ns
    r.code_n += nc
    # objective
    oc = [e for e in it.effects if e.kind == "objective"]
    os_ = [e for e in st.effects if e.kind == "objective"]
    if os_:
        vc = tm.ZERO
        loc = []
        for e in oc:
            vc = tm.add(vc, tm.ite(e.g, e.v[1], tm.ZERO))
            loc.append((e.loc[0], e.loc[1], e.fn))
        by = {}
        vs = tm.ZERO
        for e in os_:
            t = tm.summation(e.q, e.g, e.v[1])
            vs = tm.add(vs, t)
        vc, vs = cp.clean_poly(vc, facts), cp.clean_poly(vs, facts)
        d = cp.poly_diff(vc, vs, assume)
        r.spec_n += len(os_)
        r.code_n += len(oc)
        if d:
            # attribute to the part of the specification it belongs to
            parts = [(cp.tokens(tm.summation(e.q, e.g, e.v[1])), e.name)
                     for e in os_]
            for q, ps, atoms in d:
                mono = tm.Poly()
                for c, gg in ps:
                    mono.iadd_term(q, gg, atoms, c)
                tk = cp.tokens(tm.as_term(mono))
                best, names = -1, set()
                for t2, n2 in parts:
                    sc = len(tk & t2) / max(1, len(tk | t2))
                    if sc > best:
                        best, names = sc, {n2}
                    elif sc == best:
                        names.add(n2)
                r.findings.append(cp.Finding(
                    "objective", ("objective", q, atoms),
                    "objective differs from the documented cost terms by "
                    + cp.show_res([(q, ps, atoms)]), loc, names))
    # named expressions
    ec, es = values(it, "expression"), values(it, "expression")
    es = values(st, "expression")
    for nm, lst in es.items():
        r.spec_n += 1
        if nm not in ec:
            r.findings.append(cp.Finding(
                "expression", ("expression", nm), f"expression {nm} is not "
                "created", [], {nm, "expression:" + nm, "expression"}))
            continue
        vc = vs = tm.ZERO
        for q, g, v, loc, fn, _ in ec[nm]:
            if q:
                vc = tm.add(vc, tm.summation(q, g, v))
            else:           # later assignments replace earlier ones
                vc = tm.ite(g, v, vc)
        for q, g, v, loc, fn, _ in lst:
            vs = tm.add(vs, tm.summation(q, g, v))
        vc, vs = cp.clean_poly(vc, facts), cp.clean_poly(vs, facts)
        d = cp.poly_diff(vc, vs, assume)
        if d:
            r.findings.append(cp.Finding(
                "expression", ("expression", nm),
                f"expression {nm} differs by " + cp.show_res(d),
                [(l[0], l[1], fn) for _, _, _, l, fn, _ in ec[nm]],
                {nm, "expression:" + nm, "expression"}))


# ------------------------------------------------------------- functions
def find_function(repo, where, name):
    """the function `name` as exported by package `where`"""
    r = repo.resolve(where, name)
    if r[0] == "ext" and name.startswith("_"):      # moved elsewhere
        r = [("def", m, m.defs[name]) for n, m in repo.modules.items()
             if not n.startswith("spec.") and
             isinstance(m.defs.get(name), ast.FunctionDef)]
        r = r[0] if len(r) == 1 else ("ext",)
    if r[0] != "def" or not isinstance(r[2], ast.FunctionDef):
        raise Broken(f"{where}.{name} not found")
    return r[1], r[2]


def arguments(node, full):
    a = node.args
    ps = [x.arg for x in a.posonlyargs + a.args]
    nd = len(a.defaults)
    out = []
    for i, p in enumerate(ps):
        if p in ("model", "om"):
            out.append((p, M))
        elif full or i < len(ps) - nd:
            out.append((p, sym("ARG:" + p)))
    return out


def run_function(repo, mod, node, full):
    it = new_interp(repo)
    kw = dict(arguments(node, full))
    v = it.call_value(Closure(node, None, mod), [], kw, None)
    it.pc = TRUE
    return it, v


def compare_function(repo, name, specmod, where="oemof.solph.constraints",
                     distinguishing=()):
    """a function adding constraints: all arguments given, and only the
    required ones"""
    mod, node = find_function(repo, where, name)
    snode = specmod.defs.get(name)
    if snode is None:
        raise Broken(f"specification {name} missing")
    r = Result(name)
    missing = [p for p, _ in arguments(snode, True)
               if p not in dict(arguments(node, True))
               and p not in [x.arg for x in node.args.kwonlyargs]]
    if missing:
        raise Broken(f"{name}: parameters {missing} not found")
    for full in (True, False):
        it, v = run_function(repo, mod, node, full)
        st = new_interp(repo)
        kw = dict(arguments(snode, full))
        sv = st.call_value(Closure(snode, None, specmod), [], kw, None)
        if st.unknown:
            raise Broken(f"specification {name} not understood: "
                         f"{st.unknown[:3]}")
        r.unknown += it.unknown
        n = len(r.findings)
        compare_effects(it, st, r, TRUE)
        compare_warnings(it, st, r, b_and(*[
            b_not(g) for x in (it, st) for q, g, _ in cp.raise_facts(x)
            if not q]), (mod.path, node.lineno, name))
        where = "all arguments" if full else "defaults"
        for f in r.findings[n:]:
            f.msg += f" [{where}]"
        r.functions |= it.visited_functions
        # documented return value
        if st.safe_term(sv) is not NONE:
            r.spec_n += 1
            r.spec_tags["return"] = 1
            if it.safe_term(v) is not st.safe_term(sv) and \
                    not covers(it.safe_term(v), st.safe_term(sv)):
                r.findings.append(cp.Finding(
                    "return", ("return",), f"returns {tm.show(it.safe_term(v))}"
                    f" instead of {tm.show(st.safe_term(sv))} [{where}]",
                    [(mod.path, node.lineno, name)], {"return"}))
        names_rule(it, r, distinguishing,
                   [p for p, _ in arguments(node, full)], mod, node, name)
        r.it = it
    return r


def covers(t, want):
    """t is want in every case it returns at all"""
    if t.op == "cases":
        return all(x is want for _, x in t.args[0] if x is not tm.UNDEF)
    return False


def leaves(t):
    if t.op == "cases":
        return [y for _, x in t.args[0] for y in leaves(x)]
    return [t]


def mentions(t, s, seen=None):
    if t is s:
        return True
    seen = set() if seen is None else seen
    if t in seen:
        return False
    seen.add(t)
    return any(mentions(x, s, seen) for x in tm._walk_args(t.args))


def names_rule(it, r, params, given, mod, node, name):
    """components put on the model must carry the caller's name or keyword,
    and one call must not use a name twice: a second component of the same
    name replaces the first one"""
    at = [e for e in it.effects if e.kind == "attach" and e.v[0] is M]
    r.spec_n += len(at)
    r.spec_tags["names"] = r.spec_tags.get("names", 0) + len(at) + 1
    seen = []
    groups = [(p,) if isinstance(p, str) else p for p in params]
    groups = [g for g in groups if all(q in given for q in g)]
    for e in at:
        n = e.v[1]
        if groups and not all(any(all(mentions(x, sym("ARG:" + q))
                                      for q in g) for g in groups)
                              for x in leaves(n)):
            r.findings.append(cp.Finding(
                "name", ("name", tm.show(n)),
                f"component {tm.show(n)} replaces the one of an earlier call "
                f"of {name} with another "
                + " or ".join("/".join(g) for g in groups),
                [e.loc + (name,)], {"names"}))
        for n2, g2, e2 in seen:
            if n2 is n and b_and(e.g, g2) is not tm.FALSE:
                r.findings.append(cp.Finding(
                    "name", ("name", tm.show(n)),
                    f"component {tm.show(n)} is created twice, the second "
                    f"replaces the first", [e.loc + (name,),
                                            e2.loc + (name,)], {"names"}))
        seen.append((n, e.g, e))


# ----------------------------------------------------------- constructors
SELF = sym("SELF")
KEY = sym("KEY")
NODE_ARGS = {"Node": ("label",), "Edge": ("input_node", "output_node",
                                          "flow", "values")}


def params(node):
    """[(name, required)] without self"""
    a = node.args
    ps = a.posonlyargs + a.args
    nd = len(a.defaults)
    out = [(x.arg, i < len(ps) - nd) for i, x in enumerate(ps)][1:]
    out += [(x.arg, d is None) for x, d in zip(a.kwonlyargs, a.kw_defaults)]
    return out


# specified by units of their own
PARTS = {"normed_offset_and_conversion_factors_from_coefficients"}


def run_init(repo, cls, given):
    it = new_interp(repo)
    it.opaque_methods = PARTS
    self = ObjRef(SELF, cls)
    it.classmap[SELF] = cls
    f = it.class_attr(cls, "__init__", self)
    if f is None:
        raise Broken(f"{cls.name}.__init__ not found")
    ps = params(f.node)
    kw = {p: sym("ARG:" + p) for p, req in ps if req or p in given}
    lost = [p for p in given if p not in kw]
    if lost:
        raise Broken(f"{cls.name}: parameters {lost} not found")
    it.call_value(f, [], kw, None)
    it.pc = TRUE
    attrs = {k[1]: v for k, v in it.heap.items() if k[0] is SELF}
    # what is handed to the external base class
    for e in it.effects:
        if e.kind == "call" and e.name == "super.__init__":
            base = cls.node.bases[0]
            pos = NODE_ARGS.get(getattr(base, "id", ""), ("label",))
            k = 0
            for x in e.v.args:
                if x.op == "tuple" and len(x.args) == 2 and \
                        tm.is_str(x.args[0]):
                    n, v = x.args[0].args[1], x.args[1]
                else:
                    n, v = pos[k] if k < len(pos) else f"pos{k}", x
                    k += 1
                attrs["super." + n] = v
    f = it.class_attr(cls, "constraint_group", self)
    if isinstance(f, Closure):
        v = it.call_value(f, [], {}, None)
        it.pc = TRUE
        attrs["constraint_group()"] = v
        attrs["constraint_group()"] = it.safe_term(v)
    return it, attrs, f


def leafcases(t):
    if t.op in ("cases", "relcases"):
        return [(b_and(g, g2), y) for g, x in t.args[0]
                for g2, y in leafcases(x)]
    return [(TRUE, t)]


def options(v):
    if isinstance(v, CasesV):
        return v.items
    if isinstance(v, tm.T) and v.op == "cases":
        return v.args[0]
    return [(TRUE, v)]


def mapping(v):
    return any(isinstance(x, DictObj) for _, x in options(v))


def has_key(it, v, key=KEY):
    return tm.b_or(*[b_and(g, it.contains(key, x)) for g, x in options(v)])


def at_key(it, v, pc, key=KEY):
    old, out = it.pc, []
    for g, x in options(v):
        it.pc = b_and(pc, g)
        if it.pc is not tm.FALSE:
            out.append((g, it.safe_term(it.subscript(x, key, None))))
    it.pc = old
    return tm.cases(out) if out else tm.UNDEF


def inner(it, v):
    """the mapping f(mapping) or f([mapping]) is made of, and f"""
    if not isinstance(v, tm.T) or v.op != "call" or v.args[2] or \
            len(v.args[1]) != 1:
        return None, None
    x, f = v.args[1][0], v.args[0]
    if x.op == "tuple" and len(x.args) == 1:
        x, f = x.args[0], tm.mk("listof", f)
    return (it.thaw_dict(x), f) if x.op == "dict" else (None, None)


def differ(it, a, st, b, assume, blank=False, keys=(KEY,)):
    """description of a difference between the code's and the specified
    value, None if they agree"""
    if not blank and not (mapping(a) or mapping(b)):
        (x, f), (y, g) = inner(it, a), inner(st, b)
        if x is not None and y is not None and f is g:
            a, b = x, y
    if (mapping(a) or mapping(b)) and not blank:
        if {x.kind for _, x in options(a) if isinstance(x, DictObj)} != {
                x.kind for _, x in options(b) if isinstance(x, DictObj)}:
            return "is another kind of mapping"
        for k in keys:
            k, fact = k if isinstance(k, tuple) else (
                k, lambda it: TRUE)
            ga, gb = has_key(it, a, k), has_key(st, b, k)
            care = b_and(assume, fact(it), cp.exclusions(cp.atoms_of(ga, gb, assume)))
            if not cp.g_equal(ga, gb, care):
                return "has other keys" + cp.difference(
                    gb, ga, care).replace("generated", "present")
            both = b_and(care, gb)
            d = differ_terms(at_key(it, a, both, k), at_key(st, b, both, k),
                             both)
            if d:
                return d
        return None
    return differ_terms(it.safe_term(a), st.safe_term(b), assume, blank)


EMPTYDICT = tm.mk("dict", ())


def differ_terms(a, b, assume, blank=False):
    """blank: None and {} mean the same"""
    if a is b:
        return None
    for g, x in leafcases(a):
        for h, y in leafcases(b):
            both = b_and(g, h, assume)
            if both is tm.FALSE or x is y:
                continue
            care = b_and(both, cp.exclusions(cp.atoms_of(both)))
            if care is tm.FALSE:
                continue
            x, y = [NONE if z is not NONE and z.op in ("sym", "attr", "idx")
                    and tm.b_implies(care, a_is(z, NONE)) else z
                    for z in (x, y)]
            if blank:
                x, y = [EMPTYDICT if z is NONE or z.op == "sym"
                        and tm.b_implies(care, b_not(tm.a_truthy(z)))
                        else z for z in (x, y)]
            # a falsy number is zero
            x, y = [tm.ZERO if w is tm.ZERO and z.op in ("sym", "attr", "idx")
                    and tm.b_implies(care, b_and(
                        b_not(tm.a_truthy(z)), b_not(a_is(z, NONE)))) else z
                    for z, w in ((x, y), (y, x))]
            if x is y:
                continue
            if tm.is_guard(x) or tm.is_guard(y):
                gx, gy = tm.a_truthy(x), tm.a_truthy(y)
                boolean = all(tm.is_guard(z) or z in (
                    tm.PYTRUE, tm.PYFALSE) for z in (x, y))
                if boolean and cp.g_equal(gx, gy, care):
                    continue
            elif x.op == "tuple" and y.op == "tuple" and \
                    len(x.args) == len(y.args):
                ds = [differ_terms(p, q, care)
                      for p, q in zip(x.args, y.args)]
                if not any(ds):
                    continue
            elif numeric(x) and numeric(y) and not cp.poly_diff(x, y, care):
                continue
            elif x.op == y.op == "call" and alike(x, y, care):
                continue
            elif x.op in SEQ and y.op in SEQ and \
                    same_sequence(x, y, care):
                continue
            s = f"is {tm.show(x)} instead of {tm.show(y)}"
            if care is not TRUE:
                s += f" when " + cp.one_case(care, b_and(g, h), b_and(
                    assume, cp.exclusions(cp.atoms_of(both))))[:600]
            return s
    return None


SEQ = ("comp", "aslist", "tuple")


def sequence_parts(t, care):
    """(kind, [(quantifiers, guard, element)])"""
    if t.op == "tuple":
        return "seq", [((), TRUE, x) for x in t.args]
    if t.op == "aslist":
        return "seq", [("all", t.args[0])]
    out = []
    for q, g, e in t.args[1]:
        if tm.b_and(g, care) is not tm.FALSE:
            if len(q) == 1 and q[0][2] == 1 and \
                    e is tm.bv(q[0][0], 0, q[0][3]) and \
                    tm.b_implies(care, g):
                out.append(("all", q[0][1]))
                continue
            if q and g is not TRUE:
                q, g, e = tm._renumber_seg((q, tm.b_simplify(g, care), e))
            elif g is not TRUE:
                g = tm.b_simplify(g, care)
            out.append((q, g, e))
    return t.args[0], out


def same_sequence(x, y, care):
    kx, sx = sequence_parts(x, care)
    ky, sy = sequence_parts(y, care)
    if kx != ky or len(sx) != len(sy):
        return False
    for a, b in zip(sx, sy):
        if len(a) != len(b) or len(a) == 2 and differ_terms(
                a[1], b[1], care):
            return False
        if len(a) == 2:
            continue
        (q, g, e), (r, h, f) = a, b
        if len(q) != len(r) or any(
                i != j or m != n or differ_terms(d, c, care)
                for (i, d, m, _), (j, c, n, _) in zip(q, r)):
            return False
        if not cp.g_equal(g, h, care) or differ_terms(
                e, f, b_and(care, g)):
            return False
    return True


def alike(x, y, care):
    """calls of the same function with equal arguments"""
    if x.args[0] is not y.args[0] or len(x.args[1]) != len(y.args[1]) or \
            [k for k, _ in x.args[2]] != [k for k, _ in y.args[2]]:
        return False
    return not any(differ_terms(p, q, care) for p, q in
                   list(zip(x.args[1], y.args[1]))
                   + [(p, q) for (_, p), (_, q) in zip(x.args[2], y.args[2])])


def numeric(t):
    return t.op in ("poly", "recip", "attr", "idx", "bv", "call", "sym") or \
        tm.is_num(t)


def compare_class(repo, name, specmod, scenarios):
    """a constructor: scenarios are sets of given optional arguments (None:
    all of them), each argument being symbolic, so it may also be None"""
    r = Result(name)
    cls = cls_of(repo, name)
    if cls is None:
        raise Broken(f"class {name} not found")
    snode = specmod.defs.get(name)
    if snode is None:
        raise Broken(f"specification {name} missing")
    sparams = params(snode)
    for label, leave_out, only in scenarios:
        given = [p for p, req in sparams if p not in leave_out
                 and (only is None or p in only or req)]
        x, st = compare_init(repo, cls, specmod, snode, label, given, ())
        for form in sorted(st.forms_seen):
            # other ways to state the same
            if x.findings:
                y, _ = compare_init(repo, cls, specmod, snode, label, given,
                                    [form])
                if len(y.findings) < len(x.findings):
                    x = y
        r.merge(x)
    return r


def warned(it):
    """{category: (there is a warning, places)}"""
    out = {}
    for e in it.effects:
        if e.kind == "warn":
            g, at = out.get(e.name, (tm.FALSE, []))
            out[e.name] = (tm.b_or(g, it.exists(e.q, e.g)),
                           at + [e.loc + (e.fn,)])
    return out


def connected(g, it, base):
    """g in terms of what has been handed to the base class"""
    for side in ("inputs", "outputs"):
        x = base.get("super." + side)
        mine = tm.attr(SELF, side)
        if x is None or mine not in subterms(g):
            continue
        x = it.term(x)
        for a in cp.atoms_of(g):
            if a is mine or a.op == "truthy" and a.args[0] is mine:
                g = cp.compose(g, a, it.truth(x))
        n = tm.call(sym("len"), [mine])
        size = it.b_len([x], {}, None) if x is not tm.NONE else tm.ZERO
        g = tm.subst(g, {n: size, mine: x})
    for a in cp.atoms_of(g):
        d = a.args[0] if a.op == "truthy" else a
        if d.op == "dict" and not d.args[0]:
            g = tm.b_restrict(g, a, False)
    return cp.flatten(g)


def subterms(t, acc=None):
    acc = set() if acc is None else acc
    if t not in acc:
        acc.add(t)
        for x in tm._walk_args(t.args):
            subterms(x, acc)
    return acc


def compare_warnings(it, st, r, assume, where, attrs=None, norm=None):
    have, want = [{k: (g if base is None else connected(g, x, base), at)
                   for k, (g, at) in warned(x).items()}
                  for x, base in ((it, attrs), (st, None if attrs is None else
                      {k[1]: v for k, v in st.heap.items()
                       if k[0] is SELF}))]
    for k in sorted(set(have) | set(want)):
        g, at = have.get(k, (tm.FALSE, [where]))
        h = want.get(k, (tm.FALSE,))[0]
        if norm:
            g, h = norm(g), norm(h)
        r.spec_n += k in want
        r.code_n += len(have.get(k, (0, []))[1])
        for t in ("warnings", k):
            r.spec_tags[t] = r.spec_tags.get(t, 0) + (k in want)
        care = b_and(assume, cp.exclusions(cp.atoms_of(g, h, assume)))
        if cp.g_equal(g, h, care):
            continue
        r.findings.append(cp.Finding(
            "warning", ("warning", k), f"a {k} is given if "
            + tm.show_guard(tm.b_simplify(g, care)) + ", required if "
            + tm.show_guard(tm.b_simplify(h, care)), at, {"warnings", k}))


def compare_init(repo, cls, specmod, snode, label, given, forms):
    name = cls.node.name
    r = Result(name)
    it, attrs, cg = run_init(repo, cls, given)
    st = new_interp(repo)
    st.opaque_methods = PARTS
    st.classmap[SELF] = cls
    st.forms = set(forms)
    kw = {p: sym("ARG:" + p) for p in given}
    st.call_value(Closure(snode, None, specmod), [SELF], kw, None)
    st.pc = TRUE
    if st.unknown:
        raise Broken(f"specification {name} not understood: "
                     f"{st.unknown[:3]}")
    r.unknown += it.unknown
    r.functions |= it.visited_functions
    r.it = it
    compare_effects(only_errors(it), only_errors(st), r, TRUE)
    facts = [b_not(g) for q, g, _ in cp.raise_facts(it)
             + cp.raise_facts(st) if not q]
    for q, g, i in cp.raise_facts(it) + cp.raise_facts(st):
        facts += [b_not(a) for q3, a in cp._any_atoms(q, g, i) if not q3]
    assume = b_and(*facts)
    compare_warnings(it, st, r, connected(assume, it, attrs), (
        cls.module.path, cls.node.lineno, name + ".__init__"), attrs)
    loc = next(((e.loc, e.fn) for e in it.effects), None)
    stores = {}
    for e in it.effects:
        if e.kind == "store":
            stores.setdefault(e.name, []).append(e.loc + (e.fn,))
    for k, v in sorted(st.heap.items(), key=lambda kv: str(kv[0][1])):
        if k[0] is not SELF:
            continue
        a = k[1]
        r.spec_n += 1
        r.code_n += a in attrs
        r.spec_tags[a] = r.spec_tags.get(a, 0) + 1
        r.spec_tags["attributes"] = r.spec_tags.get("attributes", 0) + 1
        at = stores.get(a) or [(cls.module.path, cls.node.lineno,
                                name + ".__init__")]
        if a == "constraint_group()" and cg is not None:
            at = [(cg.module.path, cg.node.lineno,
                   name + ".constraint_group")]
        tags = {a, "attributes"} if a != "constraint_group()" else {a}
        if a in EMPTY:
            attrs.setdefault(a, NONE)
        if a not in attrs:
            r.findings.append(cp.Finding(
                "attribute", ("attribute", a), f"{a} is not set", at,
                tags))
            continue
        x = attrs[a]
        d = differ(it, x, st, v, assume, a in EMPTY)
        if d:
            r.findings.append(cp.Finding(
                "attribute", ("attribute", a), f"{a} {d}", at, tags))
    up, want = updates(it), updates(st)
    for side in ("inputs", "outputs"):
        if (SELF, "super." + side) not in st.heap and \
                attrs.get("super." + side, NONE) is not NONE:
            # handed to the base class, which adds them
            for t, base in handed(it, side, attrs["super." + side]).items():
                up[t] = base
    r.spec_n += len(want)
    r.spec_tags["connections"] = r.spec_tags.get("connections", 0) \
        + len(want) + ("super.inputs" in r.spec_tags)
    for t in want | up:
        if t in want and t in up:
            continue
        r.findings.append(cp.Finding(
            "connection", ("connection", tm.show(t)),
            ("does not connect as " if t in want else "connects as ")
            + tm.show(t), [(cls.module.path, cls.node.lineno,
                            name + ".__init__")], {"connections"}))
    for f in r.findings:
        f.msg += f" [{label}]"
        if f.what == "attribute" and f.tags & CONN:
            f.tags = set(f.tags) | {"connections"}
    return r, st


EMPTY = {"super.inputs", "super.outputs", "super.custom_properties"}
CONN = {"super.inputs", "super.outputs", "super.label"}


def updates(it):
    """connections the constructor adds: mapping, key, value"""
    out = {}
    for e in it.effects:
        if e.kind == "call" and isinstance(e.v, tm.T) and \
                e.v.op == "call" and e.v.args[0].op == "attr" and \
                e.v.args[0].args[1] == "update":
            base, new = e.v.args[0].args[0], e.v.args[1]
            if len(new) != 1:
                out[e.v] = e.v
                continue
            d = it.thaw_dict(new[0]) if new[0].op == "dict" else None
            if d is not None:
                segs = [(s.q, s.g, it.safe_term(s.k), it.safe_term(s.e))
                        for s in d.segs]
            else:
                q, x = it.quant(new[0])
                segs = [(q, TRUE, x, tm.idx(new[0], [x]))]
        elif e.kind == "setitem" and isinstance(e.v[0], tm.T) and \
                e.v[0].op == "attr" and e.v[0].args[1] in (
                    "inputs", "outputs"):
            base = e.v[0]
            segs = [((), TRUE, e.v[1], e.v[2])]
        else:
            continue
        for q, g, k, v in segs:
            t = it.term(ListObj("set", [Seg(
                tuple(e.q) + tuple(q), b_and(e.g, g), tm.tup([base, k, v])
            )], 0))
            out[t] = base
    return out


def handed(it, side, t):
    out = {}
    base = tm.attr(SELF, side)
    d = it.thaw_dict(t) if t.op == "dict" else None
    if d is None:
        q, x = it.quant(t)
        segs = [(q, TRUE, x, tm.idx(t, [x]))]
    else:
        segs = [(s.q, s.g, it.safe_term(s.k), it.safe_term(s.e))
                for s in d.segs]
    for q, g, k, v in segs:
        out[it.term(ListObj("set", [Seg(tuple(q), g, tm.tup([base, k, v]))],
                            0))] = base
    return out


# ----------------------------------------------------------------- values
def entries(it, v):
    """pairs of keys and values of a mapping"""
    out = []
    for g, x in options(v):
        if not isinstance(x, DictObj):
            raise Unsupported("entries of " + tm.show(it.safe_term(x))[:80])
        for s in x.segs:
            k, e = it.safe_term(s.k), it.safe_term(s.e)
            for h, k in k.args[0] if k.op == "cases" else ((TRUE, k),):
                out.append(Seg(s.q, b_and(g, s.g, h), tm.tup([k, e])))
    return ListObj("list", out, len(it.ctx))


def unset(it, cls, t):
    """attributes that a new object of the class has, but are None"""
    r = it.class_lookup(cls, "__init__")
    out = {}
    for s in r[2].body if r else ():
        for n in ast.walk(s):
            ts = n.targets if isinstance(n, ast.Assign) else [n.target] \
                if isinstance(n, ast.AnnAssign) else []
            if ts and isinstance(n.value, ast.Constant) and \
                    n.value.value is None:
                out.update({(t, x.attr): NONE for x in ts if isinstance(
                    x, ast.Attribute) and isinstance(x.value, ast.Name)
                    and x.value.id == "self"})
    return out


def compare_value(repo, name, specmod, where=None, cls=None, owner=None,
                  sname=None, args=None, setup=None, acts=(), fixed=None,
                  keys=(KEY,), assume=None, member=False, rest=(),
                  at=(), given_that=None, values=None, fresh=0,
                  warns=False):
    """the value (and errors) of a function, or method of class `cls`;
    acts: names of the methods of other objects whose calls count;
    fixed: arguments with given values; keys: how keys of a resulting
    mapping look like; assume(interp): what may be assumed; member: only
    what the resulting collection contains counts ("items": the pairs of
    keys and values of a mapping, counted as tuple KEY); rest: further
    arguments by position; at: keys of the part of the value that counts;
    given_that(interp): condition under which it is called;
    values: arguments with given values, also for the specification;
    fresh: how often a property of a new object is read (what is kept
    about it is up to the object); warns: the warnings count"""
    r = Result(name)
    sname = sname or name
    snode = specmod.defs.get(sname)
    if snode is None:
        raise Broken(f"specification {sname} missing")
    it, st = new_interp(repo), new_interp(repo)
    selfv = []
    if cls:
        c = cls_of(repo, cls)
        if c is None:
            raise Broken(f"class {cls} not found")
        t = owner or SELF
        for x in (it, st):
            x.classmap[t] = c
        f = it.class_attr(c, name, None if fresh else ObjRef(t, c))
        if not isinstance(f, Closure):
            raise Broken(f"{cls}.{name} not found")
        if fresh:
            f = f.bind(ObjRef(t, c))
            it.heap.update(unset(it, c, t))
        selfv = [ObjRef(t, c)]
    else:
        mod, node = find_function(repo, where, name)
        f = Closure(node, None, mod)
    given = args or [p for p, _ in params(snode)] if cls or args else \
        [x.arg for x in snode.args.posonlyargs + snode.args.args]
    have = [x.arg for x in f.node.args.posonlyargs + f.node.args.args
            + f.node.args.kwonlyargs]
    lost = [p for p in given if p not in have and p != "self"]
    if lost:
        raise Broken(f"{name}: parameters {lost} not found")
    kw = {p: sym("ARG:" + p) for p in given}
    kw.update(values or {})
    for x in (it, st):
        if setup:
            setup(x)
        if given_that:
            x.pc = given_that(x)
    pos = [kw.pop(p) for p in list(kw)] if rest else []
    v = it.call_value(f, pos + list(rest), {**kw, **(fixed or {})}, None)
    for _ in range(fresh - 1):
        v = it.call_value(f, [], {}, None)
    it.pc = TRUE
    w = st.call_value(Closure(snode, None, specmod), selfv + pos + list(rest),
                      dict(kw), None)
    st.pc = TRUE
    if st.unknown:
        raise Broken(f"specification {sname} not understood: "
                     f"{st.unknown[:3]}")
    r.it = it
    r.unknown += it.unknown
    r.functions |= it.visited_functions
    compare_effects(only_errors(it), only_errors(st), r, TRUE)
    facts = [b_not(g) for q, g, _ in cp.raise_facts(it)
             + cp.raise_facts(st) if not q]
    r.spec_n += 1
    r.code_n += 1
    r.spec_tags["value"] = 1
    care = b_and(*facts)
    if given_that:
        care = b_and(care, given_that(it))
    if warns:
        compare_warnings(it, st, r, care, (
            f.module.path, f.node.lineno, name))
    if assume:
        care = b_and(care, assume(it, cp.atoms_of(*[
            g for x in (v, w) for g, _ in options(x)])))
        v, w = given_case(v, care), given_case(w, care)
    for k in at:
        v, w = it.subscript(v, k, None), st.subscript(w, k, None)
    if member == "items":
        v, w = entries(it, v), entries(st, w)
    if member:
        v, w = it.contains(KEY, v), st.contains(KEY, w)
    # attributes left behind
    have, want = ({}, {}) if fresh else (stored(it), stored(st))
    for k in sorted(set(have) | set(want), key=str):
        dflt = tm.attr(k[0], k[1])
        x, y = have.get(k, dflt), want.get(k, dflt)
        r.spec_n += k in want
        r.spec_tags["stores"] = r.spec_tags.get("stores", 0) + (k in want)
        d = differ(it, x, st, y, care)
        if d:
            r.findings.append(cp.Finding(
                "attribute", ("attribute", k[1]),
                f"{tm.show(k[0])}.{k[1]} {d}",
                [(f.module.path, f.node.lineno, name)], {"stores", k[1]}))
    mine, theirs = components(it), components(st)
    for n in sorted(set(mine) | set(theirs), key=str):
        if mine.get(n) != theirs.get(n):
            r.findings.append(cp.Finding(
                "attribute", ("component", n[1]),
                f"component {n[1]} is {mine.get(n)} instead of "
                f"{theirs.get(n)}", [(f.module.path, f.node.lineno, name)],
                {"stores", n[1]}))
    if acts:
        compare_calls(it, st, r, care, [(f.module.path, f.node.lineno, name)],
                      lambda x, g: acted(x, acts))
    d = differ(it, v, st, w, care, keys=keys)
    if d:
        r.findings.append(cp.Finding(
            "value", ("value", name), f"result of {name} {d}",
            [(f.module.path, f.node.lineno, name)], {"value"}))
    return r


def compare_use(repo, specmod, use, want, where, opened=(), opaque=()):
    """what a piece of code that uses a part of the package gets to see,
    use(...) of the specification, is want(...); opened: the classes whose
    code is executed (they are compared by what they do, not how)"""
    r = Result(use)
    have, spec = specmod.defs.get(use), specmod.defs.get(want)
    if have is None or spec is None:
        raise Broken(f"specification {use} or {want} missing")
    it, st = new_interp(repo), new_interp(repo)
    loc = []
    for x in where:
        cn, m = x.split(":")
        c = cls_of(repo, cn)
        if c is None:
            raise Broken(f"class {cn} not found")
        n = it.class_lookup(c, m)
        loc.append((n[1].module.path, n[2].lineno, m) if n else
                   (c.module.path, c.node.lineno, cn))
    it.known = it.known - set(opened)
    it.opaque = (it.opaque - set(opened)) | set(opaque)
    kw = {p.arg: sym("ARG:" + p.arg) for p in have.args.args}
    v = it.call_value(Closure(have, None, specmod), [], dict(kw), None)
    it.pc = TRUE
    w = st.call_value(Closure(spec, None, specmod), [], dict(kw), None)
    st.pc = TRUE
    if st.unknown:
        raise Broken(f"specification {want} not understood: "
                     f"{st.unknown[:3]}")
    r.it = it
    r.unknown += it.unknown
    r.functions |= it.visited_functions
    compare_effects(only_errors(it), only_errors(st), r, TRUE)
    r.spec_n += 1
    r.code_n += 1
    r.spec_tags["value"] = 1
    care = b_and(*[b_not(g) for q, g, _ in cp.raise_facts(it)
                   + cp.raise_facts(st) if not q])
    d = differ(it, v, st, w, care)
    if d:
        r.findings.append(cp.Finding(
            "value", ("value", use), f"{use}: the result {d}",
            loc, {"value"}))
    return r


def given_case(v, care):
    """v without the cases care excludes"""
    o = [(g, x) for g, x in options(v) if b_and(g, care) is not tm.FALSE]
    return o[0][1] if len(o) == 1 else v


# ------------------------------------------------------------------ model
def compare_model(repo, specmod, sname, options=(), **given):
    """setting up a model: the constructor with the given options"""
    r = Result(sname)
    c = cls_of(repo, "Model")
    if c is None:
        raise Broken("class Model not found")
    it, st = new_interp(repo), new_interp(repo)
    me = ObjRef(M, c)
    f = it.class_attr(c, "__init__", me)
    es = tm.attr(M, "es")
    kw = {p: sym("ARG:" + p) for p in options}
    kw.update((p, tm.const(v)) for p, v in given.items())
    it.call_value(f, [], {"energysystem": es, **kw}, None)
    st.call_value(Closure(specmod.defs[sname], None, specmod), [me],
                  {"energysystem": es, **kw}, None)
    for x in (it, st):
        x.pc = TRUE
    if st.unknown:
        raise Broken(f"specification {sname} not understood: "
                     f"{st.unknown[:3]}")
    r.it = it
    r.unknown += it.unknown
    r.functions |= it.visited_functions
    compare_effects(it, st, r, TRUE)
    facts = [b_not(g) for q, g, _ in cp.raise_facts(it)
             + cp.raise_facts(st) if not q]
    care = b_and(*facts)
    loc = {}
    for e in it.effects:
        if e.kind in ("store", "attach"):
            loc.setdefault(e.name, []).append(e.loc + (e.fn,))
    here = [(f.module.path, f.node.lineno, "Model.__init__")]
    compare_warnings(it, st, r, care, here[0])
    for (b, n), v in sorted(st.heap.items(), key=lambda x: str(x[0][1])):
        if b is not M or isinstance(v, tm.T) and v is tm.attr(M, n):
            continue
        r.spec_n += 1
        r.spec_tags[n] = r.spec_tags.get(n, 0) + 1
        if (M, n) not in it.heap:
            r.findings.append(cp.Finding(
                "attribute", ("attribute", n), f"{n} is not set", here, {n}))
            continue
        r.code_n += 1
        keys = ((KEY, all_used(st)),) if n == "TIMESTEPS_IN_PERIOD" else (
            KEY,)
        d = differ(it, plain(it.heap[M, n]), st, plain(v), care, keys=keys)
        if d:
            r.findings.append(cp.Finding(
                "attribute", ("attribute", n), f"{n} {d}",
                loc.get(n, here), {n}))
    compare_calls(it, st, r, care, here)
    senses = [{e.v[2] for e in x.effects if e.kind == "objective"}
              for x in (it, st)]
    if senses[0] != senses[1]:
        r.findings.append(cp.Finding(
            "objective", ("sense",), "the objective is not minimised", here,
            {"objective"}))
    return r


def all_used(st):
    """every period has timesteps: those in the index of the timesteps"""
    def fact(it):
        out = TRUE
        for g, pairs in options(st.heap[M, "TIMEINDEX"]):
            for s in st.iterate(pairs):
                first = ListObj("set", [
                    Seg(s.q, TRUE, st.subscript(s.e, tm.ZERO, None))], 0)
                q = (("period", st.term(first), 1, "obj"),)
                e = tm.bv("period", 0, "obj")
                used = (st.contains(KEY, first),
                        has_key(st, DictObj([Seg(q, TRUE, e, k=e)]), KEY))
                for h, periods in options(st.heap[M, "PERIODS"]):
                    b = b_or(b_not(b_and(g, s.g, h)),
                             st.contains(KEY, periods))
                    n = b_or(b_not(b_and(g, s.g, h)),
                             b_not(st.contains(KEY, periods)))
                    for a in used:
                        out = b_and(out, b_or(a, n), b_or(b_not(a), b))
        return out
    return fact


def plain(v):
    """sets and lists hold the same"""
    if isinstance(v, ListObj):
        return ListObj("list", v.segs, v.depth)
    if isinstance(v, CasesV):
        return CasesV([(g, plain(x)) for g, x in v.items])
    return v


CALLS = ("_create", "del_component")


def calls(it, care):
    out = {}
    for e in it.effects:
        if e.kind == "add_component" or e.kind == "call" and \
                isinstance(e.v, tm.T) and e.v.op == "call" and \
                e.v.args[0].op == "attr" and e.v.args[0].args[1] in CALLS:
            v = e.v if isinstance(e.v, tm.T) else tm.tup(
                [x for x in e.v if isinstance(x, tm.T)])
            q, m = tm.canon_binders(tuple(e.q), [v], [e.g])
            k = (e.kind, q, tm.rename_ids(v, m))
            g = tm.rename_ids(e.g, m)
            old = out.get(k)
            out[k] = (tm.b_or(g, old[0]) if old else g, e.loc, e.fn)
    return out


def acted(it, names):
    """what is done to other objects: {(quantifiers, action): (guard, ..)}"""
    out = {}

    def put(e, q, g, key):
        q, g, key = it._canon_seg(q, g, key)
        k = (q, None, key)
        g0 = out[k][0] if k in out else tm.FALSE
        out[k] = (tm.b_or(g0, g), e.loc, e.fn)
    for e in it.effects:
        if e.kind == "setitem" and "setitem" in names:
            put(e, e.q, e.g, tm.call(sym("setitem"), list(e.v)))
        elif e.kind == "call" and isinstance(e.v, tm.T) and \
                e.v.op == "call" and e.v.args[0].op == "attr":
            base, n = e.v.args[0].args
            if n == "update" and "setitem" in names and \
                    len(e.v.args[1]) == 1:
                for g, d in leafcases(e.v.args[1][0]):
                    if d is EMPTYDICT:
                        continue
                    i = tm.fresh_id()
                    k = tm.bv(i)
                    put(e, tuple(e.q) + ((i, d, 1, "obj"),), b_and(e.g, g),
                        tm.call(sym("setitem"), [base, k, tm.idx(d, (k,))]))
            elif n in names:
                put(e, e.q, e.g, e.v)
    return out


def compare_calls(it, st, r, care, here, calls=calls):
    a, b = calls(it, care), calls(st, care)
    r.spec_n += len(b)
    r.code_n += len(a)
    r.spec_tags["calls"] = len(b)
    for k in set(a) | set(b):
        ga = a[k][0] if k in a else tm.FALSE
        gb = b[k][0] if k in b else tm.FALSE
        # what has elements is neither None nor empty
        some = [b_and(tm.a_truthy(d), b_not(a_is(d, NONE)))
                for _, d, _, _ in (k[0] if k[1] is None else k[1])
                if d.op == "sym"]
        c = b_and(care, cp.exclusions(cp.atoms_of(ga, gb, care)), *some)
        if not cp.g_equal(ga, gb, c):
            r.findings.append(cp.Finding(
                "call", ("call", tm.show(k[2])),
                f"{tm.show(k[2])[:300]} happens under condition "
                f"{tm.show_guard(b_and(ga, c))[:300]} instead of "
                f"{tm.show_guard(b_and(gb, c))[:300]}",
                [a[k][1] + (a[k][2],)] if k in a else here, {"calls"}))


def components(it):
    return {(e.v[0], e.name): (
        e.v[1], e.v[2], e.v[3], tm.show_guard(e.g), e.q)
        for e in it.effects if e.kind == "component"}


def compare_frames(repo, name, where, specmod, sname, frames, source,
                   hold):
    """tables that a function joins, one for each original cluster:
    frames(term): the table of given values it is, or None; source: data the
    clusters are from; hold: values of functions, given their arguments"""
    r = Result(name)
    it, st = new_interp(repo), new_interp(repo)
    it.no_exc = True
    for h, g in hold.items():
        it.held[h] = lambda vars, g=g: it.safe_term(g(vars))
    mod, node = find_function(repo, where, name)
    f = Closure(node, None, mod)
    snode = specmod.defs[sname]
    given = [x.arg for x in node.args.posonlyargs + node.args.args]
    need = [x.arg for x in snode.args.args]
    lost = [p for p in need if p not in given]
    if lost:
        raise Broken(f"{name}: parameters {lost} not found")
    it.call_value(f, [], {p: sym("ARG:" + p) for p in given}, None)
    w = st.call_value(Closure(snode, None, specmod), [], {
        p: sym("ARG:" + p) for p in need}, None)
    it.pc = st.pc = TRUE
    if st.unknown:
        raise Broken(f"specification {sname} not understood: "
                     f"{st.unknown[:3]}")
    r.it = it
    r.unknown += it.unknown
    r.functions |= it.visited_functions
    want = [p for p in parts_over(st, st.safe_term(w), source)]
    made = [(p, e) for e in it.effects if e.kind == "call"
            and e.v.op == "call" and e.v.args[0] is sym("pandas.concat")
            and e.v.args[1] for p in parts_over(it, e.v.args[1][0], source)]
    r.spec_n += len(want)
    r.code_n += len(made)
    r.spec_tags["clusters"] = len(want)
    ar = Arrays(it, frames=frames)
    loc = [(mod.path, node.lineno, name)]
    if not made:
        r.unknown.append((mod.path, node.lineno, "statement: how the values "
                          "of the clusters are joined"))
    for (q, g, e), x in made:
        loc = [x.loc + (x.fn,)]
        for q2, g2, e2 in want:
            m = {}
            if len(q) != len(q2):
                r.findings.append(cp.Finding(
                    "frames", ("frames", sname), "the values are not joined "
                    "cluster by cluster", loc, {"frames"}))
                continue
            for (i, d, a, so), (j, c, b, so2) in zip(q, q2):
                if a == b:
                    m.update({bv(j, k, so2): bv(i, k, so)
                              for k in range(a)})
            if any(tm.subst(c, m) is not d for (_, d, _, _), (
                    _, c, _, _) in zip(q, q2)):
                r.findings.append(cp.Finding(
                    "frames", ("frames", sname), "the clusters are "
                    + " × ".join(tm.show(d) for _, d, _, _ in q)
                    + " instead of "
                    + " × ".join(tm.show(tm.subst(d, m))
                                 for _, d, _, _ in q2), loc, {"frames"}))
                continue
            e2, g2 = tm.subst(e2, m), tm.subst(g2, m)
            d = None
            if not cp.g_equal(g, g2, TRUE):
                d = "are joined under other conditions"
            period = next(bv(i, 0, so) for i, d, _, so in q
                          if d is source or has(d, source))
            cut = it.contains(tm.const("segments"), period)
            n = tm.idx(period, (tm.const("timesteps"),))
            for case, size in ((b_not(cut), None), (cut, n)):
                d = d or frame_differs(ar, it.safe_term(e), st.safe_term(e2),
                                       case, size, {x[0] for x in q})
            if d:
                r.findings.append(cp.Finding(
                    "frames", ("frames", sname),
                    f"values of a cluster {d}", loc, {"frames"}))
    return r


# methods of tables that leave the values and their order as they are
SAME_VALUES = {"copy", "reset_index", "set_index", "rename", "rename_axis",
               "infer_objects", "convert_dtypes", "__deepcopy__"}
# and those that do not
OTHER_VALUES = {"ffill", "pad", "bfill", "backfill", "interpolate", "fillna",
                "dropna", "shift", "cumsum", "diff", "head", "tail",
                "drop_duplicates", "sort_values", "round", "abs", "clip",
                "mul", "add", "sub", "div"}


def applied(t):
    """(joined table, what is done to its values), None if unknown"""
    if t.op == "idx" and len(t.args[1]) == 1 and t.args[1][0].op == "slice":
        x = t.args[0]
        if x.op == "attr" and x.args[1] in ("iloc", "values"):
            x = x.args[0]
        x, done = applied(x)
        lo, hi, by = t.args[1][0].args
        if done is None or by is not tm.NONE:
            return x, None
        lo, hi = (None if u is tm.NONE else u for u in (lo, hi))
        if lo in (None, tm.ZERO) and hi is None:
            return x, done
        if lo in (None, tm.ZERO) and hi is tm.const(-1):
            return x, done + ["all but the last row"]
        return x, done + [f"rows {tm.show(t.args[1][0])}"]
    if t.op != "call":
        return t, None
    f = t.args[0]
    if f is sym("pandas.concat") and t.args[1]:
        x = t.args[1][0]
        if x.op == "comp" and len(x.args[1]) == 1 and x.args[1][0][2].op in (
                "call", "idx") and has(x.args[1][0][2], f):
            y, done = applied(x.args[1][0][2])    # of each part
            return t, done
        return t, []
    if f.op != "attr":
        return t, None
    if f.args[1] in SAME_VALUES:
        return applied(f.args[0])
    x, done = applied(f.args[0])
    if done is None or f.args[1] not in OTHER_VALUES:
        return x, None
    n, more = f.args[1], [tm.show(a) for a in t.args[1]] + [
        f"{k}={tm.show(v)}" for k, v in t.args[2]]
    if n == "head" and more == ["-1"]:
        return x, done + ["all but the last row"]
    n = {"pad": "ffill", "backfill": "bfill"}.get(n, n)
    if n == "fillna" and more in (["method='ffill'"], ["method='pad'"]):
        n, more = "ffill", []
    if n == "interpolate" and more in (["'linear'"], ["method='linear'"]):
        more = []
    return x, done + [n + (f"({', '.join(more)})" if more else "")]


def compare_joined(repo, name, where, hold, want, columns=(), kept=None):
    """what happens to joined tables before they are returned; columns:
    (name, value) of columns they are given; kept: names of values that are
    left out before joining and added afterwards"""
    r = Result(name)
    it = new_interp(repo)
    it.no_exc = True
    for h, g in hold.items():
        it.held[h] = lambda vars, g=g: it.safe_term(g(vars))
    mod, node = find_function(repo, where, name)
    v = it.call_value(Closure(node, None, mod), [], {
        x.arg: sym("ARG:" + x.arg) for x in node.args.posonlyargs
        + node.args.args}, None)
    it.pc = TRUE
    r.it = it
    r.unknown += it.unknown
    r.functions |= it.visited_functions
    r.spec_n = 1 + len(columns) + len(kept or ())
    r.spec_tags["joined"] = r.spec_n
    loc = [(mod.path, node.lineno, name)]

    def found(key, msg, at=None):
        r.findings.append(cp.Finding("joined", ("joined", key), msg,
                                     [at] if at else loc, {"joined"}))
    there = it.contains(KEY, sym("ARG:df_dict")) if kept else TRUE
    t = at_key(it, v, there) if kept else it.safe_term(v)
    alone = sorted(kept or ())
    for g, x in t.args[0] if t.op == "cases" else ((TRUE, t),):
        if b_and(g, there) is tm.FALSE:
            continue
        if kept and not has(x, sym("pandas.concat")):
            if x.op == "idx" and is_part(x):
                found("lost", "the values of timesteps are lost if "
                      + tm.show_guard(g))
            continue
        extra = ()
        if x.op == "call" and x.args[0] is sym("pandas.concat") and \
                x.args[1] and x.args[1][0].op == "tuple":
            extra = x.args[1][0].args
            x = next((y for y in extra if has(y, sym("pandas.concat"))), x)
            extra = [y for y in extra if y is not x]
        core, done = applied(x)
        if done is None:
            r.notes.append(f"not known what is done in {tm.show(x)[:80]}")
            continue
        r.code_n += 1
        if done != want:
            found("values", "the values of the clusters, joined, are changed "
                  f"by {done or 'nothing'} instead of {want or 'nothing'}")
        if kept is None:
            continue
        names = [sorted(c.args[1] for c in u.args) for y in [core]
                 for u in tuples_in(y) if u.args and all(
                     tm.is_str(c) for c in u.args)]
        if not names:
            found("names", "values of investment periods are taken for "
                  "values of timesteps")
        elif alone not in names:
            found("names", f"the values of periods are {names[0]} instead of "
                  f"{alone}")
        else:
            r.code_n += len(alone)
        if not extra and not any(says_empty(g, a) for a in tm.b_atoms(g)):
            found("kept", "values of investment periods are lost if "
                  + tm.show_guard(g))
    for e in it.effects:
        if e.kind != "setitem" or not has(e.v[0], sym("pandas.concat")):
            continue
        for c, w in columns:
            if e.v[1] is not tm.const(c):
                continue
            u = e.v[2]
            if w == "position":
                if u.op == "call" and u.args[0] is sym("numpy.arange"):
                    u = tm.mk("rangeiter", *(
                        u.args[1] if len(u.args[1]) == 2 else (
                            tm.ZERO,) + u.args[1]))
                ok = u.op != "rangeiter" or (
                    u.args[0] is tm.ZERO and u.args[1].op == "call"
                    and u.args[1].args[0] is sym("len"))
            else:
                ok = not tm.is_const(u) or u is tm.const(w)
            r.code_n += 1
            if not ok:
                found(c, f"{c} of the joined values is {tm.show(u)[:80]}",
                      e.loc + (name,))
    for c, w in columns:
        if not any(e.kind == "setitem" and e.v[1] is tm.const(c)
                   for e in it.effects) and not r.notes and not any(
                e.kind == "call" and has(e.v, tm.const(c))
                and e.v.args[0].op == "attr" and e.v.args[0].args[1] in (
                    "assign", "insert", "rename", "rename_axis",
                    "set_axis", "reset_index") and (
                    e.v.args[2] or e.v.args[0].args[1] != "reset_index")
                for e in it.effects):
            found(c, f"the joined values have no {c}")
    return r


def tuples_in(t):
    """explicit tuples within a term"""
    if t.op == "tuple":
        yield t
    for a in tm._walk_args(t.args):
        yield from tuples_in(a)


def says_empty(g, a):
    """g says that a selection of rows is empty"""
    if a.op != "truthy":
        return a.op in ("eq0", "lt0") and "len" in a.key
    empty = a.args[0].op == "attr" and a.args[0].args[1] == "empty"
    return tm.b_restrict(g, a, not empty) is tm.FALSE


def is_part(t):
    """rows of a table, by the names of the values"""
    return any(tm.is_str(c) for u in tuples_in(t) for c in u.args)


def compare_handed(repo, name, where, callee, want, hold, given_that=None):
    """what a function hands on to another one"""
    r = Result(name)
    it = new_interp(repo)
    it.no_exc = True
    for h, g in hold.items():
        it.held[h] = lambda vars, g=g: it.safe_term(g(vars))
    calls = []

    def called(vars):
        calls.append((it.loc, dict(vars)))
        return tm.call(sym(callee), [])
    it.held[callee] = called
    mod, node = find_function(repo, where, name)
    find_function(repo, where, callee)
    f = Closure(node, None, mod)
    it.pc = given_that(it) if given_that else TRUE
    it.call_value(f, [], {x.arg: sym("ARG:" + x.arg) for x in
                          node.args.posonlyargs + node.args.args}, None)
    r.it = it
    r.functions |= it.visited_functions
    r.spec_n += len(want)
    r.spec_tags["arguments"] = len(want)
    if not calls:
        r.unknown.append((mod.path, node.lineno,
                          f"statement: no call of {callee}"))
    for loc, vars in calls:
        for p, w in want.items():
            if p not in vars:
                raise Broken(f"{callee}: parameter {p} not found")
            r.code_n += 1
            v = it.safe_term(vars[p])
            d = differ_terms(v, w, TRUE)
            if d:
                r.findings.append(cp.Finding(
                    "argument", ("argument", p),
                    f"{callee} is given {p} that {d}",
                    [loc + (name,)], {"arguments"}))
    return r


def parts_over(it, t, source):
    """parts of a list with an entry for each cluster"""
    t = it.safe_term(t)
    if t.op == "aslist":
        t = t.args[0]
    ps = [it.refresh(Seg(*p)) for p in (t.args[1] if t.op == "comp" else ())]
    return [(p.q, p.g, p.e) for p in ps if p.q and any(
        d is source or has(d, source) for _, d, _, _ in p.q)]


def has(t, x):
    if t is x:
        return True
    return any(has(a, x) for a in tm._walk_args(t.args))


def frame_differs(ar, x, y, care, n, ids):
    """two tables, at the first n positions"""
    x, y = ar.norm(x), ar.norm(y)
    for a in sorted(tm.t_atoms(x) | tm.t_atoms(y), key=lambda a: a.key):
        if a.free and not a.free - ids:
            for on in (True, False):
                c = b_and(care, tm.lit(a) if on else b_not(tm.lit(a)))
                if c is not tm.FALSE:
                    d = frame_differs(ar, tm.t_restrict(x, a, on),
                                      tm.t_restrict(y, a, on), c, n, ids)
                    if d:
                        return d
            return None
    for g, u in options(x):
        for h, v in options(y):
            both = b_and(g, h, care)
            if both is tm.FALSE:
                continue
            if not ar.is_array(u) or not ar.is_array(v):
                return f"are {tm.show(u)} instead of {tm.show(v)}"
            size = n
            if n is None:
                size, k = [ar.size(z) for z in (v, u)]
                if size is None or k is None:
                    return "have an unknown number"
                size, k = ar.norm(size), ar.norm(k)
                d = differ_terms(k, size, both)
                if d:
                    return "have a number that " + d
            a, b = ar.elem(u, KEY), ar.elem(v, KEY)
            if a is None or b is None:
                return f"are {tm.show(u)} instead of {tm.show(v)}"
            inside = b_and(both, b_not(tm.a_lt0(KEY)), tm.a_lt0(
                tm.sub(KEY, size)))
            d = differ_terms(ar.norm(a), ar.norm(b), inside)
            if d:
                return d
    return None


def stored(it):
    out = {}
    for (b, n), v in it.heap.items():
        if isinstance(b, tm.T) and isinstance(n, str):
            if b.op == "sym" and b.args[0].startswith("NEW:"):
                continue        # an object that only helped
            if isinstance(v, tm.T) and v.op == "cases":
                v = tm.cases([(g, tm.attr(b, n) if x is tm.UNDEF else x)
                              for g, x in v.args[0]])
            out[b, n] = v
    return out


class only_errors:
    """the errors an interpreter run produced"""

    def __init__(self, it):
        self.effects = [e for e in it.effects if e.kind == "raise"]
        self.exists = it.exists


# ------------------------------------------------------------------ tables
def compare_rows(repo, name, where, specmod, columns, sname=None):
    """the rows of the table a function returns"""
    r = Result(name)
    snode = specmod.defs.get(sname or name)
    if snode is None:
        raise Broken(f"specification {sname or name} missing")
    mod, node = find_function(repo, where, name)
    sides = []
    for f in (Closure(node, None, mod), Closure(snode, None, specmod)):
        x = new_interp(repo)
        x.tables, x.no_exc = tables, True
        kw = {p.arg: sym("ARG:" + p.arg) for p in snode.args.args}
        v = x.call_value(f, [], kw, None)
        x.pc = TRUE
        if isinstance(v, tables.Table):
            lost = [c for c in columns if c not in v.names]
            if lost:
                x.note_unknown(f"columns {lost} of the table", node)
            v = tables.rows(x, v, columns)
        rows = None
        if isinstance(v, ListObj):
            rows = [(s.q, s.g, x.unpack_any(s.e)) for s in x.iterate(v)]
        if rows is None or any(e is None for _, _, e in rows):
            x.note_unknown("statement: the resulting table", node)
            rows = []
        sides.append((x, tables.plain_rows([
            (q, g, [x.safe_term(y) for y in e]) for q, g, e in rows])))
    (it, have), (st, want) = sides
    if st.unknown or not want:
        raise Broken(f"specification {name} not understood: {st.unknown[:3]}")
    r.it = it
    r.unknown += it.unknown
    r.functions |= it.visited_functions
    compare_effects(only_errors(it), only_errors(st), r, TRUE)
    atoms = cp.atoms_of(*have.values(), *want.values())
    care = b_and(cp.exclusions(atoms), tables.facts_of(atoms))
    here = [(mod.path, node.lineno, name)]
    r.spec_tags["rows"] = 0
    for k in sorted(set(have) | set(want), key=str):
        a, b = (b_and(x.get(k, tm.FALSE), care) for x in (have, want))
        if a is tm.FALSE and b is tm.FALSE:
            continue
        r.code_n += a is not tm.FALSE
        r.spec_n += b is not tm.FALSE
        r.spec_tags["rows"] += b is not tm.FALSE
        if not cp.g_equal(a, b, care):
            row = ", ".join(f"{c} {tm.show(x)[:200]}"
                            for c, x in zip(columns, k[1]))
            r.findings.append(cp.Finding(
                "rows", ("rows", k), f"row with {row}: exists if "
                f"{tm.show_guard(a)[:300]} instead of "
                f"{tm.show_guard(b)[:300]}", here, {"rows"}))
    return r


# ----------------------------------------------------------- energy system
def compare_system(repo, specmod, scenarios, name="EnergySystem"):
    """the constructor for each of the given kinds of arguments"""
    r = Result(name)
    c = cls_of(repo, name)
    if c is None:
        raise Broken(f"class {name} not found")
    for label, given in scenarios:
        kw = {}
        for p, kind in given.items():
            kw[p] = kind if isinstance(kind, tm.T) else sym(
                f"GIVEN:{p}:{kind}")
        made = []
        for f in (None, specmod.defs[name]):
            it = new_interp(repo)
            it.no_exc = True
            it.classmap[SELF] = c
            me = ObjRef(SELF, c)
            if f is None:
                f = it.class_attr(c, "__init__", me)
                lost = [p for p in kw if p not in [
                    n for n, _ in params(f.node)]]
                if lost:
                    raise Broken(f"{name}: parameters {lost} not found")
                it.call_value(f, [], kw, None)
                here = [(f.module.path, f.node.lineno, name + ".__init__")]
            else:
                it.call_value(Closure(f, None, specmod), [SELF],
                              {p: kw.get(p, given_default(p))
                               for p, _ in params(f) if p != "self"}, None)
            it.pc = TRUE
            made.append(it)
        it, st = made
        if st.unknown:
            raise Broken(f"specification {name} not understood: "
                         f"{st.unknown[:3]}")
        r.it = it
        r.unknown += it.unknown
        r.functions |= it.visited_functions
        ar = Arrays(it, [system_facts(kw)])
        n = len(r.findings)
        # errors
        reject(r, it, st, ar)
        care = b_and(*[b_not(ar.norm(g)) for x in (it, st)
                       for q, g, _ in cp.raise_facts(x) if not q])
        if care is tm.FALSE:
            continue
        ar.assume(care)
        compare_warnings(it, st, r, care, here[0], norm=ar.norm)
        loc = {}
        for e in it.effects:
            if e.kind == "store":
                loc.setdefault(e.name, []).append(e.loc + (e.fn,))
        have, want = [
            {k[1]: v for k, v in x.heap.items() if k[0] is SELF}
            for x in (it, st)]
        sup = [e for e in it.effects if e.kind == "call"
               and e.name == "super.__init__"]
        for e in sup:
            for x in e.v.args:
                if x.op == "tuple" and len(x.args) == 2 and \
                        tm.is_str(x.args[0]):
                    have["super." + x.args[0].args[1]] = x.args[1]
                else:
                    have["super.groupings"] = x
        for a, v in sorted(want.items()):
            r.spec_n += 1
            r.spec_tags[a] = r.spec_tags.get(a, 0) + 1
            if a not in have:
                r.findings.append(cp.Finding(
                    "attribute", ("attribute", a), f"{a} is not set", here,
                    {a}))
                continue
            r.code_n += 1
            d = ar.differ(it.safe_term(plain(have[a])),
                          st.safe_term(plain(v)), care, differ_terms)
            if d:
                r.findings.append(cp.Finding(
                    "attribute", ("attribute", a), f"{a} {d}",
                    loc.get(a, here), {a}))
        # what is put into the given parameters
        mine, theirs = [puts(x, ar) for x in (it, st)]
        r.spec_n += len(theirs)
        r.spec_tags["parameters"] = r.spec_tags.get("parameters", 0) + \
            len(theirs)
        for k in sorted(set(mine) | set(theirs), key=str):
            d = None
            if k not in mine or k not in theirs:
                d = "is " + ("not " if k in theirs else "") + "set"
            else:
                r.code_n += 1
                a, b = mine[k][0], theirs[k][0]
                d = differ_terms(a, b, care)
            if d:
                r.findings.append(cp.Finding(
                    "parameter", ("parameter", str(k[-1])),
                    f"{tm.show(k[1])}[{tm.show(k[2])}] {d}",
                    [mine[k][1]] if k in mine else here, {"parameters"}))
        for f in r.findings[n:]:
            f.msg += f" [{label}]"
    return r


def given_default(p):
    return tm.PYFALSE if p in ("infer_last_interval",
                               "use_remaining_value") else NONE


def reject(r, it, st, ar):
    """the conditions under which data are rejected"""
    def conds(x):
        out = tm.FALSE
        for q, g, _ in cp.raise_facts(x):
            out = tm.b_or(out, ar.norm(x.exists(q, g)))
        return out
    a, b = conds(it), conds(st)
    r.spec_n += 1
    r.code_n += 1
    r.spec_tags["reject"] = r.spec_tags.get("reject", 0) + 1
    care = cp.exclusions(cp.atoms_of(a, b))
    if not cp.g_equal(a, b, care):
        loc = [e.loc + (e.fn,) for e in it.effects if e.kind == "raise"]
        r.findings.append(cp.Finding(
            "raise", ("reject",), f"data are rejected if "
            f"{tm.show_guard(a)[:500]} instead of {tm.show_guard(b)[:500]}",
            loc or [("?", 0, "EnergySystem")], {"reject"}))


def system_facts(kw):
    """every period has its aggregation, which knows its occurrences"""
    tsa = kw.get("tsa_parameters")
    periods = kw.get("periods")

    def rule(t):
        if t.op == "idx" and len(t.args[1]) == 1 and \
                t.args[1][0] is tm.const("occurrences"):
            return tm.call(sym("collections.Counter"), [
                tm.idx(t.args[0], (tm.const("order"),))])
        if tsa is not None and periods is not None and \
                t is tm.call(sym("len"), [periods]):
            return tm.call(sym("len"), [tsa])
        return t
    return rule


def puts(it, ar):
    """entries put into given objects: {key: (value, location)}"""
    out = {}
    for e in it.effects:
        if e.kind != "setitem":
            continue
        base, k, v = e.v
        q, g, t = ar.ranged(it._canon_seg(
            tuple((i, ar.norm(d), n, s) for i, d, n, s in e.q), e.g,
            tm.tup([base, k, v])))
        g, t = ar.norm(g), ar.norm(t)
        m = {x[0]: f"position{n}" for n, x in enumerate(q)}
        q = tuple((m[i], tm.rename_ids(d, m), n, s) for i, d, n, s in q)
        g = tm.rename_ids(g, m)
        base, k, v = tm.rename_ids(t, m).args
        old = out.get((q, base, k))
        if old:
            v = tm.cases([(g, v), (b_not(g), old[0])])
        elif g is not TRUE:
            v = tm.cases([(g, v), (b_not(g), tm.UNDEF)])
        out[q, base, k] = (v, e.loc + (e.fn,))
    return out


# --------------------------------------------------------------- groupings
def compare_groupings(repo, specmod):
    """the groups an energy system sorts flows and nodes into"""
    r = Result("groupings")
    it, st = new_interp(repo), new_interp(repo)
    made = {}
    plain_call = it.opaque_call

    def record(ft, args, kw):
        t = plain_call(ft, args, kw)
        made[t] = (args, kw)
        return t
    it.opaque_call = record
    res = repo.resolve(PKG + "._groupings", "GROUPINGS")
    v = it.from_resolved(res)
    here = [(repo.modules[PKG + "._groupings"].path, 1, "GROUPINGS")]
    if not isinstance(v, ListObj) or any(s.q for s in v.segs):
        raise Broken("GROUPINGS is not a list of groupings")
    flow = sym("FLOW")
    for x in (it, st):
        x.classmap[flow] = cls_of(repo, "Flow")
    got, nodes = {}, []
    for s in v.segs:
        if isinstance(s.e, Closure):
            nodes.append(s.e)
            continue
        t = s.e if isinstance(s.e, tm.T) else it.safe_term(s.e)
        if t not in made or t.args[0] is not sym(
                "oemof.network.groupings.FlowsWithNodes"):
            r.findings.append(cp.Finding(
                "grouping", ("grouping",), f"grouping {tm.show(t)} is not "
                "part of the documented ones", here, {"flows", "nodes"}))
            continue
        args, kw = made[t]
        kw = dict(zip(("key", "constant_key", "filter"), args), **kw)
        key = it.term(kw.pop("constant_key"))
        keep = kw.pop("filter", NONE)
        g = TRUE
        if keep is not NONE:
            g = tm.a_truthy(it.safe_term(it.call_value(
                keep, [tm.tup([sym("FROM"), sym("TO"), flow])], {}, None)))
            it.pc = TRUE
        if kw:
            raise Broken(f"grouping with {sorted(kw)} not understood")
        got.setdefault(tm.show(key), []).append((g, here))
    r.it = it
    r.functions |= it.visited_functions
    r.unknown += it.unknown
    for n, d in specmod.defs.items():
        if not isinstance(d, ast.FunctionDef):
            continue
        want = tm.a_truthy(st.safe_term(st.call_value(
            Closure(d, None, specmod), [flow], {}, None)))
        st.pc = TRUE
        r.spec_n += 1
        r.spec_tags["flows"] = r.spec_tags.get("flows", 0) + 1
        gs = got.pop(f"cls({n})", [])
        r.code_n += len(gs)
        g = tm.b_or(*[x for x, _ in gs]) if gs else tm.FALSE
        care = b_and(*[tm.lit(a) for a in cp.atoms_of(g)
                       if a.op == "hasattr" and a.args[0] is flow])
        if not cp.g_equal(g, want, b_and(care, cp.exclusions(
                cp.atoms_of(g, want)))):
            r.findings.append(cp.Finding(
                "grouping", ("grouping", n),
                f"{n} is built for flows with {tm.show_guard(g)} instead of "
                f"{tm.show_guard(want)}", here, {"flows"}))
    for n in got:
        r.findings.append(cp.Finding(
            "grouping", ("grouping", n), f"{n} is built for flows", here,
            {"flows"}))
    # nodes are grouped by what their class names
    kinds = [(m, d) for m in repo.modules.values() for d in m.defs.values()
             if isinstance(d, ast.ClassDef)]
    used = {}
    for m, d in kinds:
        c = ClassRef(m, d)
        t = sym("NODE:" + d.name)
        it.classmap[t] = c
        f = it.class_attr(c, "constraint_group", ObjRef(t, c))
        if not isinstance(f, Closure):
            continue
        want = it.safe_term(it.call_value(f, [], {}, None))
        it.pc = TRUE
        r.spec_n += 1
        r.spec_tags["nodes"] = r.spec_tags.get("nodes", 0) + 1
        have = []
        for g in nodes:
            have.append(it.safe_term(it.call_value(
                g, [ObjRef(t, c)], {}, None)))
            it.pc = TRUE
        r.code_n += len(have)
        if not any(not differ_terms(x, want, TRUE) for x in have):
            r.findings.append(cp.Finding(
                "grouping", ("grouping", d.name),
                f"{d.name} is grouped as {[tm.show(x) for x in have]} "
                f"instead of {tm.show(want)}", here, {"nodes"}))
        for g, x in leafcases(want):
            if x.op == "cls":
                used.setdefault(x.args[0], (m.path, d.lineno, d.name))
    for n in specmod.defs:
        used.setdefault(n, here[0])
    # and what they name is built
    std = it.class_attr(cls_of(repo, "Model"), "CONSTRAINT_GROUPS", None)
    std = {tm.show(x) for x in it.safe_term(std).args}
    for n, loc in sorted(used.items()):
        c = cls_of(repo, n)
        r.spec_n += 1
        r.spec_tags["built"] = r.spec_tags.get("built", 0) + 1
        if c is None or not it.class_lookup(c, "_create"):
            r.findings.append(cp.Finding(
                "registration", (n,), f"{n} is not a formulation", [loc],
                {"built"}))
        elif f"cls({n})" not in std and not it.class_lookup(
                c, "CONSTRAINT_GROUP"):
            r.findings.append(cp.Finding(
                "registration", (n,), f"{n} is never built by a model: it "
                "neither belongs to the standard formulations nor is it "
                "marked as CONSTRAINT_GROUP", [loc], {"built"}))
        else:
            r.code_n += 1
    return r


def show(r, width=260, n=12):
    for f in r.findings[:n]:
        print("*", f.what, sorted(f.tags), [(l[0].split("/")[-1],) + l[1:]
              for l in f.locs][:3], "\n   ", f.msg[:width])
    if len(r.findings) > n:
        print("...", len(r.findings) - n, "more")


if __name__ == "__main__":
    import sys
    import time
    repo = Repo()
    t = time.time()
    a = [x for x in sys.argv[1:] if not x.startswith("-")]
    if "-f" in sys.argv:
        sys.setrecursionlimit(20000)
        from .registry import UNITS
        r = UNITS[a[0]](repo)
        show(r, *((3000, 200) if "-v" in sys.argv else ()))
        print("unknown", r.unknown, "spec", r.spec_n, "code", r.code_n,
              r.spec_tags, round(time.time() - t, 2))
        sys.exit()
    r, it, st = compare_block(repo, a[0], load_spec(repo, a[1]),
                              a[2] if len(a) > 2 else None)
    if "-v" in sys.argv:
        show(r, 3000, 200)
    else:
        show(r)
    print("unknown", r.unknown, "spec", r.spec_n, "code", r.code_n,
          round(time.time() - t, 2))
