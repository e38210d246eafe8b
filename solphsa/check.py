"""python3 -m solphsa.check P01 : decides one property from /repo's source.

exit 0  every obligation of the property is met by the source
exit 1  VIOLATION line, replay file names the construct
exit 2  no answer (anchor vanished, construct not understood)
"""
import json
import os
import resource
import sys
import time
import traceback

from . import terms as tm
from .props import PROPS
from .registry import UNITS
from .source import Repo
from .units import Broken

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
KNOWN = os.path.join(ROOT, "known_findings.txt")
RULE = ("every relation, bound, domain, objective term, store or error the "
        "source can produce is reduced to a canonical quantified and guarded "
        "form and has to coincide with the specification's; a difference is "
        "a violation at the named construct")


def known(pid):
    out = {}
    if os.path.exists(KNOWN):
        for line in open(KNOWN):
            line = line.strip()
            if not line.startswith("{"):
                continue
            d = json.loads(line)
            if d.get("property") == pid:
                out[d["key"]] = d
    return out


def fkey(unit, f):
    return f"{unit}|{f.what}|{f.msg}"


def relevant(f, tags):
    if tags is None:        # of warnings only where they are named
        return "warnings" not in f.tags
    return "*" in f.tags or bool(set(f.tags) & set(tags))


def run(pid, tier, seed):
    t0 = time.time()
    prop = PROPS[pid]
    repo = Repo()
    viol, seen_known, broken = [], [], []
    cov = {"units": {}, "obligations": 0, "relations_extracted": 0,
           "functions": set(), "call_sites": 0, "ast_nodes": 0}
    kn = known(pid)
    for uname, tags in prop["units"]:
        try:
            r = UNITS[uname](repo)
        except Broken as e:
            broken.append(f"{uname}: {e}")
            continue
        except Exception as e:        # analysis failure, never a verdict
            broken.append(f"{uname}: {type(e).__name__}: {e}")
            traceback.print_exc(file=sys.stderr)
            continue
        fs = [f for f in r.findings if relevant(f, tags)]
        unk = [f for f in fs if "unknown" in f.msg and "u~" in f.msg]
        if unk and len(unk) == len(fs):
            broken.append(f"{uname}: construct not understood: "
                          + str(r.unknown[:3]))
            fs = []
        stm = [u for u in r.unknown if u[2].startswith(
            ("statement", "while", "constraint"))]
        if stm and not fs:
            broken.append(f"{uname}: construct not understood: {stm[:3]}")
        for f in fs:
            k = fkey(uname, f)
            if k in kn:
                seen_known.append(kn[k])
            else:
                viol.append((uname, f))
        if tags is None:
            n_ob = r.spec_n
        else:
            n_ob = sum(n for t, n in r.spec_tags.items() if t in tags)
        if not n_ob:
            broken.append(f"{uname}: no obligation carries {tags}")
        u = {"obligations": n_ob, "relations_extracted": r.code_n,
             "tags": sorted(tags) if tags else "all",
             "findings": len(fs)}
        u.update(getattr(r, "stats", {}) or {})
        cov["units"][uname] = u
        cov["obligations"] += n_ob
        cov["relations_extracted"] += r.code_n
        cov["functions"] |= {f"{a}:{b}" if isinstance(b, str) else str((a, b))
                             for a, b in _pairs(r.functions)}
        it = getattr(r, "it", None)
        if it is not None:
            cov["call_sites"] += it.call_sites
            cov["ast_nodes"] += it.nodes
    fn = sorted(cov["functions"])
    cov["functions_analysed"] = len(fn)
    cov["functions"] = fn
    cov["rule"] = prop.get("rule", RULE)
    cov["samples"] = [s for s in samples(prop)]
    cov["explanation"] = (
        "Static decision from the syntax trees of the files under "
        "/repo/src read on this run: " + prop.get("rule", RULE)
        + ". obligations counts the specification's records compared, "
        "relations_extracted those found in the source, functions lists the "
        "functions walked.")
    ev = {"property": pid, "tier": tier, "seed": seed, "level": "other",
          "coverage": cov, "assumptions": prop.get("assume", []) + ASSUME,
          "wall_s": round(time.time() - t0, 3), "violations": len(viol)}
    os.makedirs(os.path.join(ROOT, "evidence", "replay"), exist_ok=True)
    with open(os.path.join(ROOT, "evidence", pid + ".json"), "w") as fh:
        json.dump(ev, fh, indent=1, default=str)
    for d in {d["key"]: d for d in seen_known}.values():
        print(f"KNOWN-FINDING: property={pid} {d['what']}")
    if viol:
        path = os.path.join(ROOT, "evidence", "replay", pid + ".json")
        out = []
        for u, f in viol:
            locs = [f"{l[0]}:{l[1]} in {l[2] if len(l) > 2 else '?'}"
                    for l in f.locs]
            out.append({"unit": u, "kind": f.what, "where": locs,
                        "message": f.msg, "key": fkey(u, f)})
        with open(path, "w") as fh:
            json.dump({"property": pid, "title": prop["title"],
                       "rule": prop.get("rule", RULE), "violations": out},
                      fh, indent=1)
        for o in out[:8]:
            print(f"{o['unit']}: {o['kind']} at {'; '.join(o['where'][:3])}: "
                  f"{o['message'][:400]}")
        print(f"VIOLATION property={pid} replay={path}")
        return 1
    if broken:
        for b in broken:
            print("NO ANSWER:", b)
        return 2
    print(f"OK property={pid} obligations={cov['obligations']} "
          f"relations={cov['relations_extracted']} "
          f"functions={len(fn)} wall={ev['wall_s']}s")
    return 0


ASSUME = [
    "the specification under /verif/solphsa/specs states the documented "
    "formulation",
    "pyomo, pandas, numpy and oemof.network behave as documented",
    "no bus is both an input and an output of the same component",
]


def _pairs(fs):
    for f in fs:
        if isinstance(f, tuple):
            yield f[0], ":".join(str(x) for x in f[1:])
        else:
            yield "", str(f)


def samples(prop):
    for u, tags in prop["units"][:6]:
        yield {"unit": u, "tags": sorted(tags) if tags else "all"}


def main(argv):
    pid = argv[0]
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    sys.setrecursionlimit(20000)
    resource.setrlimit(resource.RLIMIT_AS, (8 << 30, 8 << 30))
    try:
        return run(pid, tier, seed)
    except (Exception, MemoryError):
        traceback.print_exc()
        print("NO ANSWER: the analysis failed")
        return 2


if __name__ == "__main__":
    sys.exit(main(sys.argv[1:]))
