"""Hand-written rewrites of the source: behaviour-preserving ones (expected
"quiet") and defects ("found").
python3 tools/variants.py FILE.py [label..]   FILE defines
VARIANTS = [(label, unit, file, expect, [(old, new[, other file]), ..])];
old None makes a new file"""
import os, runpy, shutil, subprocess, sys, tempfile
import concurrent.futures as cf
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def one(v):
    label, unit, f, expect, edits = v
    d = tempfile.mkdtemp(prefix="var")
    try:
        shutil.copytree("/repo/src", d + "/src",
                        ignore=shutil.ignore_patterns("__pycache__"))
        for old, new, *other in edits:
            p = f"{d}/src/oemof/solph/{(other or [f])[0]}"
            s = open(p).read() if old is not None else ""
            if old is not None and s.count(old) != 1:
                return label, "EDIT", f"{s.count(old)} x {old[:60]!r}"
            s = s.replace(old, new) if old is not None else new
            open(p, "w").write(s)
        for p in {f"{d}/src/oemof/solph/{(e[2:] or [f])[0]}" for e in edits}:
            compile(open(p).read(), p, "exec")
        out = ""
        for u in [unit] if isinstance(unit, str) else unit:
            r = subprocess.run(
                ["python3", "-m", "solphsa.units", "-f", u, "-v"], cwd=R,
                env=dict(os.environ, SOLPH_SRC=d + "/src"),
                capture_output=True, text=True)
            out += r.stdout + r.stderr[-600:]
        found = "\n* " in "\n" + out
        if "Error: " in out or "unknown [(" in out:
            res = "no answer" + (" and findings" if found else "")
        else:
            res = "found" if found else "quiet"
        return label, "ok" if res == expect else "DIFFERS", \
            f"{res}\n{out[:1500]}"
    finally:
        shutil.rmtree(d)


if __name__ == "__main__":
    vs = runpy.run_path(sys.argv[1])["VARIANTS"]
    if sys.argv[2:]:
        vs = [v for v in vs if v[0] in sys.argv[2:]]
    with cf.ThreadPoolExecutor(8) as ex:
        for label, ok, text in ex.map(one, vs):
            if ok == "ok" and not sys.argv[2:]:
                print("ok  ", label, text.split("\n")[0])
            else:
                print(ok, label, text)
