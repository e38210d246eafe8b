"""Renames every private name (or every parameter of private functions) of the
package in a scratch copy; every check has to stay quiet on it.

python3 tools/renames.py names|parameters
"""
import ast
import glob
import os
import re
import shutil
import subprocess
import sys
import tempfile

R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, R)
from solphsa import names  # noqa
from solphsa.props import PROPS  # noqa

EXTERNAL = {"_apply_to", "_index_set", "_index"}


def all_names(fs):
    mods = {os.path.basename(f)[:-3] for f in fs}
    inv = names.inventory([ast.parse(open(f).read()) for f in fs])
    ns = sorted(set(inv) - mods - EXTERNAL)
    for f in fs:
        s = open(f).read()
        with open(f, "w") as g:
            g.write(re.sub(r"(?<!\w)(%s)(?!\w)" % "|".join(ns),
                           r"\1_renamed", s))


def all_parameters(fs):
    trees = [ast.parse(open(f).read()) for f in fs]
    keys = {}
    for f in names.parameters(trees).values():
        m = {x: x + "_given" for x in names.listed(f)
             if x not in ("self", "cls")}
        names.Rename(m, ("id", "arg")).visit(f)
        keys.setdefault(f.name, {}).update(m)
    for t in trees:
        for c in ast.walk(t):
            if isinstance(c, ast.Call):
                n = getattr(c.func, "id", getattr(c.func, "attr", None))
                for k in c.keywords:
                    k.arg = keys.get(n, {}).get(k.arg, k.arg)
    for f, t in zip(fs, trees):
        with open(f, "w") as g:
            g.write(ast.unparse(t))


with tempfile.TemporaryDirectory() as d:
    shutil.copytree("/repo/src/oemof", d + "/oemof")
    fs = sorted(glob.glob(d + "/oemof/solph/**/*.py", recursive=True))
    {"names": all_names, "parameters": all_parameters}[sys.argv[1]](fs)
    bad = []
    for p in PROPS:
        r = subprocess.run([sys.executable, "-m", "solphsa.check", p], cwd=R,
                           env=dict(os.environ, SOLPH_SRC=d),
                           capture_output=True, text=True)
        if r.returncode:
            bad.append(p)
            print(p, r.returncode, r.stdout[-300:])
    print("not quiet:", bad)
