"""evaluate small python snippets: python3 /tmp/snip.py 'def f(x): ...' """
import sys
sys.path.insert(0,'/verif'); sys.setrecursionlimit(20000)
from solphsa.units import *
from solphsa.units import SELF
import ast
from solphsa.source import *
repo=Repo()
src=sys.stdin.read()
import tempfile,types
from solphsa.units import load_spec
import solphsa.units as un
import inspect
d=tempfile.mkdtemp()
import shutil
shutil.copytree("/repo/src",d+"/src",ignore=shutil.ignore_patterns("__pycache__"))
open(d+"/src/oemof/solph/snip.py","w").write(src)
import os
os.environ["SOLPH_SRC"]=d+"/src"
import importlib, solphsa.source as so
importlib.reload(so)
repo=so.Repo()
for n in ast.parse(src).body:
    if not isinstance(n,ast.FunctionDef): continue
    mod,node=find_function(repo,"oemof.solph.snip",n.name)
    it=new_interp(repo)
    kw={x.arg:sym("ARG:"+x.arg) for x in node.args.args}
    v=it.call_value(Closure(node,None,mod),[],kw,None)
    print(n.name,":",tm.show(it.safe_term(v))[:900], "UNK" if it.unknown else "", it.unknown[:2])
shutil.rmtree(d)
