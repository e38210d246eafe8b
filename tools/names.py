"""Writes solphsa/names.json: the private names of /repo's source (run on the
tree the specifications were written for)."""
import ast
import glob
import json
import os
import sys

R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, R)
from solphsa import names  # noqa

fs = sorted(glob.glob("/repo/src/oemof/solph/**/*.py", recursive=True))
mods = {os.path.basename(f)[:-3] for f in fs}
trees = [ast.parse(open(f).read()) for f in fs]
inv = names.inventory(trees)
with open(names.FILE, "w") as f:
    json.dump({"names": {n: [k, sorted(w)] for n, (k, w)
                         in sorted(inv.items()) if n not in mods},
               "parameters": {k: names.listed(f) for k, f in
                              sorted(names.parameters(trees).items())}},
              f, indent=0)
    f.write("\n")
