#!/usr/bin/env python3
"""check.py PROPERTY [quick|thorough]   decide a property
check.py replay FILE                 replay a reported violation"""
import importlib, json, os, sys, time, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vlib
from vlib import Broken, Report, known_findings

MODULES = {p: ["frames"] for p in ("C01", "C02", "C03", "C04")}
MODULES.update(C05=["shared"], C07=["ids"], C06=["shared"], C08=["shared"])
MODULES.update(C24=["mesh"], C25=["batch"])
MODULES.update(C26=["shared", "misc"])
MODULES.update(C27=["ident"])
MODULES.update(C23=["ops"])
MODULES.update(C21=["mp"], C22=["mp"])
MODULES.update({p: ["rx"] for p in ("C17", "C18", "C19", "C20")})
for p in ("C09", "C10", "C11", "C12", "C13", "C14", "C15", "C16", "C30"):
    MODULES[p] = ["engine"]
MODULES["C31"] = ["rust"]
MODULES["C16"].append("serve")
for p in ("C10", "C11", "C12", "C13", "C14", "C16"):
    MODULES[p].append("link")


def main():
    if sys.argv[1] == "replay":
        r = json.load(open(sys.argv[2]))
        res = importlib.import_module(r["kind"]).replay(r)
        print(json.dumps(res, indent=1))
        return 1 if res else 0
    if sys.argv[1] == "setup":
        return 0 if vlib.tlcjars() else 2
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    rep = Report(prop, tier)
    broken = None
    for name in MODULES[prop]:
        try:
            importlib.import_module(name).check(prop, tier, rep)
        except Exception as e:  # what was found before still counts
            broken = e
            if not isinstance(e, Broken):
                traceback.print_exc()
    if broken and not rep.violations:
        raise broken
    known = {k: (p, t) for p, k, t in known_findings() if p == prop}
    out = []
    hit = set()
    for what, rp in rep.violations:
        k = rp.get("key")
        if k in known:
            hit.add(k)
        else:
            out.append((what, rp))
    for k in sorted(hit):
        print("KNOWN-FINDING: property=%s %s" % (prop, known[k][1]))
    ev = os.path.join(vlib.ROOT, "evidence")
    os.makedirs(os.path.join(ev, "replays"), exist_ok=True)
    seen = 0
    for i, (what, rp) in enumerate(out[:5]):
        path = os.path.join(ev, "replays", "%s-%d.json" % (prop, i))
        with open(path, "w") as h:
            json.dump(rp, h, indent=1)
        print(what)
        print("VIOLATION property=%s replay=%s" % (prop, path))
        seen += 1
    cov = dict(states=rep.states, transitions=rep.transitions, traces_validated_against_impl=rep.traces,
               samples=rep.samples or ["none"], bounds=rep.bounds, **rep.extra)
    doc = dict(property=prop, tier=tier, seed=vlib.SEED, level="model_checking", coverage=cov,
               assumptions=rep.notes, wall_s=round(time.time() - vlib.START, 1), violations=len(out))
    with open(os.path.join(ev, prop + ".json"), "w") as h:
        json.dump(doc, h, indent=1)
    vlib.note("%s %s: %d states, %d transitions, %d behaviours compared, %d violations" % (
        prop, tier, rep.states, rep.transitions, rep.traces, len(out)))
    return 1 if out else 0


if __name__ == "__main__":
    try:
        code = main()
    except Broken as e:
        print("BROKEN CHECK:", e)
        code = 2
    except Exception:
        traceback.print_exc()
        code = 2
    finally:
        vlib.cleanup()
    sys.stdout.flush()
    os._exit(code)
