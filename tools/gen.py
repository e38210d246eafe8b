"""Writes properties.jsonl and MANIFEST.json from solphsa/props.py."""
import json
import os
import sys

R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, R)
from solphsa.props import PROPS  # noqa
try:
    from solphsa.props import NOT_APPLICABLE
except ImportError:
    NOT_APPLICABLE = {}

TECH = ("static dataflow analysis: gated value numbering of the "
        "model-building code, canonical comparison with the documented "
        "relations")
NOTE = ("Decides the property for every input the source admits, from the "
        "syntax tree alone; assumes the specification states the documented "
        "formulation and that pyomo, pandas, numpy and oemof.network behave "
        "as documented. ")
with open(os.path.join(R, "properties.jsonl"), "w") as f:
    for p in PROPS.values():
        f.write(json.dumps({
            "id": p["id"], "title": p["title"], "statement": p["statement"],
            "quantifier": {"over": p["over"], "text": p["text"]},
            "why_tests_cant": p["why"],
            "anchors": {"files": p["files"],
                        "mechanism": [{"name": n, "where": w}
                                      for n, w in p["mech"]],
                        "observe_at": ["the optimisation model handed to the "
                                       "solver"], "hook_needed": None},
        }) + "\n")
    for k, d in NOT_APPLICABLE.items():
        f.write(json.dumps(d["property"]) + "\n")
man = {"version": 1, "setup_cmd": "python3 -m compileall -q solphsa",
       "checks": [], "not_applicable": [
           {"property": k, "reason": d["reason"]}
           for k, d in NOT_APPLICABLE.items()],
       "notes": "no hooks: the checks only read /repo/src"}
for p in PROPS.values():
    man["checks"].append({
        "property": p["id"],
        "quick_cmd": f"python3 -m solphsa.check {p['id']}",
        "thorough_cmd": f"python3 -m solphsa.check {p['id']}",
        "technique": p.get("tech", TECH), "level": "other",
        "level_note": NOTE + p["note"]})
with open(os.path.join(R, "MANIFEST.json"), "w") as f:
    json.dump(man, f, indent=1)
    f.write("\n")
for l in open(os.path.join(R, "properties.jsonl")):
    assert len(json.loads(l)["title"]) <= 80, l
for p in PROPS.values():
    for x in p["files"] + [w.split()[0] for _, w in p["mech"]]:
        assert os.path.exists(os.path.join("/repo", x)), x


def between(text, name, body):
    a, b = f"<!-- {name} -->\n", f"<!-- /{name} -->"
    i, j = text.index(a) + len(a), text.index(b)
    return text[:i] + body + text[j:]


from solphsa.registry import UNITS  # noqa

D = os.path.join(R, "DESIGN.md")
text = open(D).read()
rows = ["| id | property | units compared (records) | bound, further assumptions |",
        "|---|---|---|---|"]
for p in PROPS.values():
    us = []
    for u, tags in p["units"]:
        us.append(u + (f" ({', '.join(sorted(tags))})" if tags else ""))
    rows.append("| " + " | ".join([
        p["id"], p["title"], "; ".join(us),
        "; ".join(x for x in [p["note"].strip()] + p["assume"] if x)]) + " |")
text = between(text, "properties", "\n".join(rows) + "\n")
text = between(text, "na", "".join(
    f"* {k} ({d['property']['title']}): {d['reason']}\n"
    for k, d in NOT_APPLICABLE.items()))
rows = []
for l in open(os.path.join(R, "known_findings.txt")):
    if l.startswith("fixed:"):
        _, pr, c, *w = l.split()
        rows.append(f"* {pr.split('=')[1]} ({c}): {' '.join(w)}")
text = between(text, "fixes", "\n".join(rows) + "\n")
rows = ["| bug | property | needs | breaks |", "|---|---|---|---|"]
S = os.path.join(R, "seeded")
if os.path.isdir(S):
    for x in sorted(os.listdir(S)):
        m = json.load(open(os.path.join(S, x, "meta.json")))
        rows.append(f"| {x} | {m['property']} | {m['needs']} | {m['what_it_breaks']} |")
    text = between(text, "seeded", "\n".join(rows) + "\n")
with open(D, "w") as f:
    f.write(text)
