"""Private names.  Renaming a private name (`_x`) everywhere in the package
changes nothing, so the source is read under the names the specifications know:
a known name that is gone is given back to the most similar new one."""
import ast
import json
import os

FILE = os.path.join(os.path.dirname(os.path.abspath(__file__)), "names.json")


def private(n):
    return n.startswith("_") and not n.startswith("__") and n != "_"


def words(node):
    """what the source around a name looks like"""
    out = set()
    for x in ast.walk(node):
        if isinstance(x, ast.Name):
            out.add(x.id)
        elif isinstance(x, ast.Attribute):
            out.add(x.attr)
        elif isinstance(x, ast.arg):
            out.add(x.arg)
        elif isinstance(x, ast.keyword) and x.arg:
            out.add(x.arg)
        elif isinstance(x, ast.Constant) and isinstance(x.value, str):
            out.add(x.value[:40])
    return out


def inventory(trees):
    """private name -> (kind, words around it)"""
    out = {}

    def add(name, kind, ws):
        k, w = out.get(name, (kind, set()))
        out[name] = (kind if kind != "attr" else k, w | ws)

    def visit(node, stmt, owner):
        for x in ast.iter_child_nodes(node):
            s, o = stmt, owner
            if isinstance(x, ast.stmt):
                s = x
            if isinstance(x, (ast.FunctionDef, ast.ClassDef)):
                if private(x.name):
                    add(x.name, "class" if isinstance(x, ast.ClassDef)
                        else "def", words(x) | {"in " + owner})
                o = x.name
            elif isinstance(x, ast.Attribute) and private(x.attr):
                simple = s is not None and not isinstance(
                    s, (ast.FunctionDef, ast.ClassDef, ast.If, ast.For,
                        ast.While, ast.With, ast.Try))
                add(x.attr, "attr", (words(s) if simple else words(x))
                    | {"in " + owner})
            visit(x, s, o)

    for t in trees:
        visit(t, None, "")
    for n, (k, w) in out.items():
        w.discard(n)
    return out


def parameters(trees):
    """"owner.name" -> the parameters of private functions and methods"""
    out = {}
    for t in trees:
        for o, body in [("", t.body)] + [
                (c.name, c.body) for c in t.body
                if isinstance(c, ast.ClassDef)]:
            for f in body:
                if isinstance(f, ast.FunctionDef) and (
                        private(f.name) or o.startswith("_")):
                    out[f"{o}.{f.name}"] = f
    return out


def listed(f):
    a = f.args
    return [x.arg for x in a.posonlyargs + a.args + a.kwonlyargs]


def own_parameters(trees, known):
    """the parameters of private functions get their known names back"""
    keys = {}
    for k, f in parameters(trees).items():
        have, want = listed(f), known.get(k)
        if want is None or have == want or len(have) != len(want) or \
                set(have) == set(want):
            continue
        m = {h: w for h, w in zip(have, want) if h != w}
        if set(m) & set(want) or set(m.values()) & set(have):
            continue
        used = {x.id for x in ast.walk(f) if isinstance(x, ast.Name)} | {
            x.arg for x in ast.walk(f) if isinstance(x, ast.arg)}
        inner = [x.arg for x in ast.walk(f) if isinstance(x, ast.arg)
                 and x.arg in m]
        if used & set(m.values()) or len(inner) > len(m):
            continue
        Rename(m, ("id", "arg")).visit(f)
        keys.setdefault(f.name, {}).update(m)
    for t in trees if keys else ():
        for c in ast.walk(t):
            if isinstance(c, ast.Call):
                n = getattr(c.func, "id", getattr(c.func, "attr", None))
                for k in c.keywords:
                    k.arg = keys.get(n, {}).get(k.arg, k.arg)


def given_back(have, known):
    """new name -> known name"""
    lost = [n for n in known if n not in have]
    new = [n for n in have if n not in known]
    if not lost or not new:
        return {}
    gone = set(lost)
    pairs = []
    for n in new:
        k, w = have[n]
        for o in lost:
            if known[o][0] != k:
                continue
            ow = {x for x in known[o][1] if x not in gone}
            w_ = {x for x in w if x not in new}
            sim = len(w_ & ow) / (len(w_ | ow) or 1)
            if sim >= 0.4:
                pairs.append((-sim, n, o))
    out = {}
    for _, n, o in sorted(pairs):
        if n not in out and o not in out.values():
            out[n] = o
    return out


class Rename(ast.NodeTransformer):
    def __init__(self, m, fields=("id", "attr", "name", "asname", "arg")):
        self.m, self.fields = m, fields

    def visit_keyword(self, node):
        if "attr" in self.fields:
            return self.generic_visit(node)
        node.value = self.visit(node.value)
        return node

    def generic_visit(self, node):
        for f in self.fields:
            v = getattr(node, f, None)
            if isinstance(v, str) and v in self.m:
                setattr(node, f, self.m[v])
        if isinstance(node, (ast.Global, ast.Nonlocal)):
            node.names = [self.m.get(n, n) for n in node.names]
        if "attr" in self.fields and isinstance(node, ast.Constant) and \
                isinstance(node.value, str) and node.value in self.m:
            node.value = self.m[node.value]
        return super().generic_visit(node)


def canonical(trees):
    with open(FILE) as f:
        known = json.load(f)
    m = given_back(inventory(trees), known["names"])
    if m:
        for t in trees:
            Rename(m).visit(t)
    own_parameters(trees, known["parameters"])
    return m
