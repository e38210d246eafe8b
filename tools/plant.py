"""plant one bug: python3 tools/plant.py FILE.py  (FILE defines BUGS list of
dicts id, property, file, edits [(old,new)], demo, needs, breaks). Works in a
scratch copy /tmp/w of /repo; keeps the bug only if the stable tests pass and
the demo tells both trees apart."""
import json, os, runpy, shutil, subprocess, sys
W = "/tmp/w"
ENV = dict(os.environ, PYTHONPATH=W + "/src:" + W + "/tests",
           PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", MPLBACKEND="Agg",
           HOME="/root", PATH="/opt/venv/bin:/usr/local/bin:/usr/bin:/bin")
SH = '''#!/bin/bash
D=$(cd "$(dirname "$0")" && pwd)
export PYTHONPATH="$PWD/src" PYTHONDONTWRITEBYTECODE=1 PATH=/opt/venv/bin:/usr/local/bin:/usr/bin:/bin
exec /opt/venv/bin/python -W ignore "$D/demo.py"
'''


def sh(*a, **k):
    return subprocess.run(a, capture_output=True, text=True, **k)


def reset():
    sh("git", "-C", W, "checkout", "--", ".")


def main():
    bugs = runpy.run_path(sys.argv[1])["BUGS"]
    only = sys.argv[2:]
    if not os.path.isdir(W):
        sh("cp", "-a", "/repo", W)
    base = json.load(open("/opt/vp/BASELINE.json"))["stable"]
    for b in bugs:
        if only and b["id"] not in only:
            continue
        reset()
        sh("git", "-C", W, "fetch", "-q", "/repo", "main")
        sh("git", "-C", W, "reset", "-q", "--hard", "FETCH_HEAD")
        d = "/tmp/plant/" + b["id"]
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(d)
        open(d + "/demo.py", "w").write(b["demo"])
        open(d + "/demo.sh", "w").write(SH)
        os.chmod(d + "/demo.sh", 0o755)
        r0 = sh("bash", d + "/demo.sh", cwd=W)
        ok = True
        for fn, old, new in b["edits"]:
            p = W + "/src/oemof/solph/" + fn
            s = open(p).read()
            n = s.count(old)
            if n != 1:
                print(b["id"], "edit matches", n)
                ok = False
                break
            open(p, "w").write(s.replace(old, new))
        if not ok:
            continue
        diff = sh("git", "-C", W, "diff").stdout
        r1 = sh("bash", d + "/demo.sh", cwd=W)
        t = sh("/opt/venv/bin/python", "-m", "pytest", "-q", "-p",
               "no:cacheprovider", "-x" if False else "-q", "--timeout=300",
               "--continue-on-collection-errors", "--junitxml=/tmp/j.xml",
               "-o", "junit_family=xunit2",
               cwd=W, env=ENV)
        sh("/usr/bin/python3", "/opt/vp/results.py", "/tmp/o.json",
           "junit:/tmp/j.xml")
        o = json.load(open("/tmp/o.json"))
        miss = sorted(set(base) - set(o["passed"]))
        good = r0.returncode == 0 and r1.returncode != 0 and not miss
        print(b["id"], "OK" if good else "REJECTED", "demo clean",
              r0.returncode, "patched", r1.returncode, "tests lost",
              len(miss), miss[:3])
        if r0.returncode:
            print(r0.stdout[-500:], r0.stderr[-800:])
        if good:
            print("   ", (r1.stdout + r1.stderr).strip()[-160:].replace(
                "\n", " "))
            t = "/verif/seeded/" + b["id"]
            shutil.rmtree(t, ignore_errors=True)
            shutil.copytree(d, t)
            open(t + "/patch.diff", "w").write(diff)
            json.dump({"property": b["property"], "needs": b["needs"],
                       "what_it_breaks": b["breaks"]},
                      open(t + "/meta.json", "w"), indent=1)
        reset()


main()
