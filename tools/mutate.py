"""Small faults planted everywhere in /repo's source: lists those that leave
every unit quiet.

mutate.py [-f file,..] [-k kind,..]
"""
import argparse
import ast
import concurrent.futures as cf
import copy
import os
import shutil
import sys
import tempfile

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import refactor as rf  # noqa

SRC = rf.SRC
PAIRS = [("minimum", "maximum"), ("positive", "negative"),
         ("startup", "shutdown"), ("inputs", "outputs"),
         ("input", "output"), ("uptime", "downtime"),
         ("inflow", "outflow"), ("max", "min"), ("total", "invest"),
         ("old", "old_end"), ("old_exo", "old_end"),
         ("TIMESTEPS", "TIMEPOINTS"), ("full_load_time_max",
                                       "full_load_time_min"),
         ("keys", "values"), ("first", "last"),
         ("minimum_uptime", "minimum_downtime"),
         ("inflow_conversion_factor", "outflow_conversion_factor"),
         ("loss_rate", "fixed_losses_relative"),
         ("fixed_losses_relative", "fixed_losses_absolute"),
         ("min_storage_level", "max_storage_level"),
         ("timeincrement", "objective_weighting")]
SWAP = {}
for a, b in PAIRS:
    SWAP.setdefault(a, []).append(b)
    SWAP.setdefault(b, []).append(a)


def mutants(tree):
    """yields (line, description, apply()) ; apply mutates in place and
    returns an undo"""
    doc = set()
    for n in ast.walk(tree):
        if isinstance(n, (ast.FunctionDef, ast.ClassDef, ast.Module)):
            if n.body and isinstance(n.body[0], ast.Expr) and isinstance(
                    n.body[0].value, ast.Constant):
                doc.add(id(n.body[0].value))
        if isinstance(n, ast.JoinedStr):
            for x in ast.walk(n):
                doc.add(id(x))

    def setter(o, f, v):
        def do():
            old = getattr(o, f)
            setattr(o, f, v)
            return lambda: setattr(o, f, old)
        return do

    for n in ast.walk(tree):
        if id(n) in doc:
            continue
        ln = getattr(n, "lineno", 0)
        if isinstance(n, ast.Compare) and len(n.ops) == 1:
            op = n.ops[0]
            alt = {ast.Lt: [ast.LtE, ast.Gt], ast.LtE: [ast.Lt, ast.GtE,
                                                         ast.Eq],
                   ast.Gt: [ast.GtE, ast.Lt], ast.GtE: [ast.Gt, ast.LtE,
                                                         ast.Eq],
                   ast.Eq: [ast.NotEq, ast.LtE, ast.GtE],
                   ast.NotEq: [ast.Eq],
                   ast.Is: [ast.IsNot], ast.IsNot: [ast.Is],
                   ast.In: [ast.NotIn], ast.NotIn: [ast.In]}
            for a in alt.get(type(op), []):
                yield ln, "cmp", f"{type(op).__name__}->{a.__name__}", \
                    setter(n, "ops", [a()])
        if isinstance(n, ast.BinOp):
            alt = {ast.Add: [ast.Sub], ast.Sub: [ast.Add],
                   ast.Mult: [ast.Div], ast.Div: [ast.Mult]}
            for a in alt.get(type(n.op), []):
                if isinstance(n.op, ast.Add) and any(isinstance(
                        x, (ast.JoinedStr, ast.List, ast.ListComp)) or
                        isinstance(x, ast.Constant) and isinstance(
                            x.value, str) for x in ast.walk(n)):
                    continue
                yield ln, "arith", f"{type(n.op).__name__}->{a.__name__}", \
                    setter(n, "op", a())
            if isinstance(n.op, ast.Mult):
                for side in ("left", "right"):
                    yield ln, "factor", f"{side} factor dropped: " + \
                        ast.unparse(getattr(n, side))[:40], setter(
                            n, side, ast.Constant(1))
        if isinstance(n, ast.AugAssign) and isinstance(n.op, ast.Add):
            yield ln, "arith", "+= -> -=", setter(n, "op", ast.Sub())
        if isinstance(n, ast.Constant) and not isinstance(n.value, bool) \
                and isinstance(n.value, (int, float)):
            yield ln, "const", f"{n.value}->{n.value + 1}", setter(
                n, "value", n.value + 1)
        if isinstance(n, ast.Constant) and isinstance(n.value, bool):
            yield ln, "const", f"{n.value}->{not n.value}", setter(
                n, "value", not n.value)
        if isinstance(n, ast.Constant) and n.value is None:
            yield ln, "const", "None->0", setter(n, "value", 0)
        if isinstance(n, ast.Attribute) and n.attr in SWAP:
            for a in SWAP[n.attr]:
                yield ln, "attr", f"{n.attr}->{a}", setter(n, "attr", a)
        if isinstance(n, ast.Subscript) and isinstance(
                n.ctx, ast.Load) and isinstance(n.slice, (
                    ast.Name, ast.BinOp)):
            yield ln, "index", f"{ast.unparse(n)[:50]} -> [0]", setter(
                n, "slice", ast.Constant(0))
        if isinstance(n, ast.Subscript) and isinstance(
                n.slice, ast.Tuple) and len(n.slice.elts) > 1:
            e = n.slice.elts
            k = len(e) - 1
            t = ast.Tuple(e[:-1] + [ast.Constant(0)], ast.Load())
            if isinstance(e[k], (ast.Name, ast.BinOp)) and isinstance(
                    n.ctx, ast.Load):
                yield ln, "index", f"{ast.unparse(n)[:50]} -> [..,0]", \
                    setter(n, "slice", t)
        if isinstance(n, (ast.If, ast.IfExp)):
            yield ln, "cond", "if True", setter(n, "test",
                                                ast.Constant(True))
            yield ln, "cond", "if False", setter(n, "test",
                                                 ast.Constant(False))
        if isinstance(n, ast.BoolOp):
            o = ast.Or() if isinstance(n.op, ast.And) else ast.And()
            yield ln, "cond", f"-> {type(o).__name__}", setter(n, "op", o)
            for k in range(len(n.values)):
                v = n.values[:k] + n.values[k + 1:]
                yield ln, "cond", "operand dropped: " + ast.unparse(
                    n.values[k])[:40], setter(n, "values", v if len(v) > 1
                                              else v + v)
        if isinstance(n, ast.comprehension) and n.ifs:
            yield getattr(n.target, "lineno", 0), "cond", \
                "filter dropped: " + ast.unparse(n.ifs[0])[:40], setter(
                    n, "ifs", [])
        for f in ("body", "orelse", "finalbody"):
            b = getattr(n, f, None)
            if not (isinstance(b, list) and b and isinstance(b[0],
                                                             ast.stmt)):
                continue
            for k, s in enumerate(b):
                if isinstance(s, (ast.Expr, ast.Assign, ast.AugAssign,
                                  ast.Raise, ast.Continue, ast.Break)):
                    if isinstance(s, ast.Expr) and isinstance(
                            s.value, ast.Constant):
                        continue
                    yield s.lineno, "stmt", "deleted: " + ast.unparse(
                        s)[:60], setter(
                            n, f, b[:k] + [ast.Pass()] + b[k + 1:])


def work(args):
    rel, i, us = args
    sys.setrecursionlimit(20000)
    import resource
    resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
    from solphsa.registry import UNITS
    from solphsa.source import Repo
    p = os.path.join(SRC, "oemof", "solph", rel)
    tree = ast.parse(open(p, encoding="utf-8").read())
    ms = list(mutants(tree))
    line, kind, desc, do = ms[i]
    do()
    ast.fix_missing_locations(tree)
    try:
        text = ast.unparse(tree)
        compile(text, p, "exec")
    except Exception:
        return rel, line, kind, desc, "invalid"
    d = tempfile.mkdtemp(prefix="mutant")
    try:
        shutil.copytree(SRC, d + "/src", ignore=shutil.ignore_patterns(
            "__pycache__"))
        with open(os.path.join(d, "src", "oemof", "solph", rel), "w") as f:
            f.write(text)
        repo = Repo(d + "/src")
        for u in us:
            try:
                r = UNITS[u](repo)
                if r.findings:
                    return rel, line, kind, desc, "caught " + u
                if [x for x in r.unknown if x[2].startswith(
                        ("statement", "while", "constraint"))]:
                    return rel, line, kind, desc, "no answer " + u
            except Exception as e:
                return rel, line, kind, desc, f"no answer {u} {e}"
    finally:
        shutil.rmtree(d)
    return rel, line, kind, desc, "SURVIVED"


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("-f")
    ap.add_argument("-k")
    a = ap.parse_args()
    touch = rf.base_functions()
    fs = a.f.split(",") if a.f else list(rf.files())
    jobs = []
    for f in fs:
        us = [u for u, x in touch.items() if f in x]
        if not us:
            print("no unit walks", f)
            continue
        tree = ast.parse(open(os.path.join(SRC, "oemof", "solph", f),
                              encoding="utf-8").read())
        for i, m in enumerate(mutants(tree)):
            if a.k and m[1] not in a.k.split(","):
                continue
            jobs.append((f, i, us))
    n = {}
    with cf.ProcessPoolExecutor(8) as ex:
        for rel, line, kind, desc, res in ex.map(work, jobs, chunksize=8):
            n[res.split()[0]] = n.get(res.split()[0], 0) + 1
            if res.startswith(("SURV", "no")):
                print(f"{rel}:{line} {kind} {desc} {res[:90]}", flush=True)
    print(n)


if __name__ == "__main__":
    main()
