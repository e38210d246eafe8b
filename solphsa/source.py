"""Loads the source of oemof.solph (syntax trees only, nothing is imported)."""
import ast
import os

from . import names
from .desugar import desugared

ROOT = os.environ.get("SOLPH_SRC", "/repo/src")
PKG = "oemof.solph"


class Module:
    def __init__(self, name, path, is_pkg):
        self.name, self.path, self.is_pkg = name, path, is_pkg
        with open(path, encoding="utf-8") as f:
            self.text = f.read()
        self.tree = desugared(ast.parse(self.text, path))
        self.defs = {}

    def collect(self):
        self._collect(self.tree.body)

    def _collect(self, body):
        for s in body:
            if isinstance(s, (ast.FunctionDef, ast.ClassDef,
                              ast.AsyncFunctionDef)):
                self.defs[s.name] = s
            elif isinstance(s, ast.Import):
                for a in s.names:
                    n = a.asname or a.name.split(".")[0]
                    self.defs[n] = ("mod", a.name if a.asname else n)
            elif isinstance(s, ast.ImportFrom):
                base = self._abs(s)
                for a in s.names:
                    if a.name == "*":
                        continue
                    self.defs[a.asname or a.name] = ("from", base, a.name)
            elif isinstance(s, ast.Assign):
                for t in s.targets:
                    if isinstance(t, ast.Name):
                        self.defs[t.id] = ("expr", s.value)
            elif isinstance(s, ast.AnnAssign) and s.value is not None:
                if isinstance(s.target, ast.Name):
                    self.defs[s.target.id] = ("expr", s.value)
            elif self._grown(s):
                name, more = self._grown(s)
                if isinstance(self.defs.get(name), tuple) and \
                        self.defs[name][0] == "expr":
                    self.defs[name] = ("expr", ast.fix_missing_locations(
                        ast.copy_location(ast.BinOp(
                            self.defs[name][1], ast.Add(), more), s)))
            elif isinstance(s, (ast.If, ast.Try, ast.With)):
                for b in ("body", "orelse", "finalbody"):
                    self._collect(getattr(s, b, []) or [])

    @staticmethod
    def _grown(s):
        """a statement adding to a list of the module"""
        if isinstance(s, ast.AugAssign) and isinstance(s.op, ast.Add) and \
                isinstance(s.target, ast.Name):
            return s.target.id, s.value
        c = s.value if isinstance(s, ast.Expr) else None
        if isinstance(c, ast.Call) and isinstance(c.func, ast.Attribute) and \
                isinstance(c.func.value, ast.Name) and len(c.args) == 1 and \
                not c.keywords:
            if c.func.attr == "append":
                return c.func.value.id, ast.List([c.args[0]], ast.Load())
            if c.func.attr == "extend":
                return c.func.value.id, c.args[0]
        return None

    def _abs(self, s):
        if not s.level:
            return s.module or ""
        parts = self.name.split(".")
        if not self.is_pkg:
            parts = parts[:-1]
        parts = parts[: len(parts) - (s.level - 1)]
        return ".".join(parts + ([s.module] if s.module else []))


class Repo:
    def __init__(self, root=None):
        self.root = root or ROOT
        self.modules = {}
        base = os.path.join(self.root, "oemof", "solph")
        for d, ds, fs in os.walk(base):
            ds[:] = sorted(x for x in ds if x != "__pycache__")
            for f in sorted(fs):
                if not f.endswith(".py"):
                    continue
                p = os.path.join(d, f)
                rel = os.path.relpath(p, self.root)[:-3].split(os.sep)
                is_pkg = rel[-1] == "__init__"
                if is_pkg:
                    rel = rel[:-1]
                name = ".".join(rel)
                self.modules[name] = Module(name, p, is_pkg)
        self.renamed = names.canonical(
            [m.tree for m in self.modules.values()])
        for m in self.modules.values():
            m.collect()

    def resolve(self, modname, attr, seen=()):
        """-> ('def', Module, node) | ('expr', Module, node) |
        ('module', name) | ('ext', dotted) """
        if (modname, attr) in seen:
            return ("ext", f"{modname}.{attr}")
        m = self.modules.get(modname)
        if m is None:
            return ("ext", f"{modname}.{attr}")
        d = m.defs.get(attr)
        if d is None:
            sub = f"{modname}.{attr}"
            if sub in self.modules:
                return ("module", sub)
            return ("ext", sub)
        if isinstance(d, tuple):
            if d[0] == "mod":
                return ("module", d[1])
            if d[0] == "from":
                sub = f"{d[1]}.{d[2]}"
                if d[1] in self.modules:
                    if d[2] in self.modules[d[1]].defs:
                        return self.resolve(d[1], d[2],
                                            seen + ((modname, attr),))
                if sub in self.modules:
                    return ("module", sub)
                return ("ext", sub)
            return ("expr", m, d[1])
        return ("def", m, d)

    def find_class(self, name):
        for m in self.modules.values():
            d = m.defs.get(name)
            if isinstance(d, ast.ClassDef):
                return m, d
        return None

    def find_function(self, modsuffix, name):
        for n, m in self.modules.items():
            if n.endswith(modsuffix):
                d = m.defs.get(name)
                if isinstance(d, ast.FunctionDef):
                    return m, d
        for m in self.modules.values():
            d = m.defs.get(name)
            if isinstance(d, ast.FunctionDef):
                return m, d
        return None
