"""run the check of every planted bug (or those named) against a scratch copy
with the bug applied: python3 tools/seedrun.py [ids]"""
import json, os, subprocess, sys
W = "/tmp/w"
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids = sys.argv[1:] or sorted(os.listdir(R + "/seeded"))
for i in ids:
    d = f"{R}/seeded/{i}"
    p = json.load(open(d + "/meta.json"))["property"]
    subprocess.run(["git", "-C", W, "checkout", "-q", "--", "."])
    subprocess.run(["git", "-C", W, "fetch", "-q", "/repo", "main"])
    subprocess.run(["git", "-C", W, "reset", "-q", "--hard", "FETCH_HEAD"])
    a = subprocess.run(["git", "-C", W, "apply", d + "/patch.diff"])
    r = subprocess.run([sys.executable, "-m", "solphsa.check", p], cwd=R,
                       env=dict(os.environ, SOLPH_SRC=W + "/src"),
                       capture_output=True, text=True)
    print(i, p, "CAUGHT" if r.returncode == 1 else
          f"missed rc={r.returncode}", "apply", a.returncode)
    if r.returncode != 1 or "-v" in sys.argv:
        print("   ", r.stdout[-300:])
    subprocess.run(["git", "-C", W, "checkout", "-q", "--", "."])
