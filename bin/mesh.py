"""C24: linking imports and exports of modules."""
import random
from vlib import *
import pure

NAMES = [("a", "x"), ("a", "y"), ("b", "x"), ("a.b", "c"), ("a", "b.c"), ("", "x"), ("x", ""), ("", "")]


def build(race=False):
    return gobuild("./internal/verifx/mesh", {"internal/verifx/mesh": "mesh", "internal/verifx/relay": "relay", "internal/verifx/wire": "wire"},
                   race=race)


def oper(rng, names, types):
    return dict(t=rng.choice(types), n=rng.choice(names), i=rng.choice([0, 1, 2, 3, 7, 255, 256, 65536, 2**31 - 1]))


def opers(rng, names, types, n):
    """Operations with an index of their own and, mostly, a name of their own."""
    out, seen = [], set()
    for _ in range(n):
        o = oper(rng, names, types)
        if (o["t"], o["i"]) not in seen and (o["t"], tuple(o["n"])) not in seen:
            seen |= {(o["t"], o["i"]), (o["t"], tuple(o["n"]))}
            out.append(o)
    return out


def module(rng, names, types):
    ex = opers(rng, names, types, rng.choice([0, 1, 2, 4]))
    im = opers(rng, names, types, rng.choice([0, 1, 2, 4]))
    if im and rng.random() < 0.2:
        # The same operation imported under two indices.
        i = dict(im[0], i=im[0]["i"] + 11)
        if all((o["t"], o["i"]) != (i["t"], i["i"]) for o in im):
            im.append(i)
    return dict(file=rng.choice("PQRST"), ex=ex, im=im)


def scenario(rng, loads):
    names = [list(n) for n in rng.sample(NAMES, rng.choice([1, 2, 3, len(NAMES)]))]
    types = rng.choice([[1, 2, 3, 4], [1], [3], [4], [2], [1, 3]])
    p, mods, pend = [], [], 0
    while sum(a["a"] == "load" for a in p) < loads or rng.random() < 0.8:
        x = rng.random()
        a = dict(a="", m=dict(file="", ex=[], im=[]), t=rng.choice(types), n=rng.choice(names), k=0, i=0, md=rng.choice([0, 3, 4, 7, 8, 9, 20]),
                 data=rng.choice([0, 1, 30, 300]), dem=rng.choice([1, 2, 3, 2**31 - 1]), err=rng.random() < 0.3, perm=rng.randrange(1000))
        if (x < 0.4 or not mods) and len(mods) < loads + 2:
            m = module(rng, names, types)
            if mods and rng.random() < 0.3:
                m["ex"] = mods[-1]["ex"]
            if mods and rng.random() < 0.2:
                m["file"] = mods[-1]["file"]
            mods.append(m)
            a.update(a="load", m=m)
        elif x < 0.62:
            a["a"] = "call"
        elif x < 0.86 and mods:
            k = rng.choice([k for k in range(len(mods)) if all(m["file"] != mods[k]["file"] for m in mods[k + 1:])])
            im = [o for o in mods[k]["im"]]
            if im and rng.random() < 0.9:
                o = rng.choice(im)
                a.update(t=o["t"], i=o["i"])
            else:
                a.update(i=rng.choice([0, 1, 5, 999]))
            a.update(a="via", k=k + 1)
        elif x < 0.97:
            a["a"] = "answer"
        else:
            a["a"] = "wait"
        p.append(a)
        # A reloaded module's predecessor need not answer any more.
        if a["a"] == "load":
            p.insert(len(p) - 1, dict(a, a="answer"))
    p.append(dict(p[-1], a="answer"))
    if rng.random() < 0.3:
        p.append(dict(p[-1], a="call"))
    return dict(op="run", p=p, seed=0)


def small(rep, k):
    mods = """{[ex |-> << [t |-> 1, n |-> "x", i |-> 0] >>, im |-> <<>>],
      [ex |-> << [t |-> 1, n |-> "x", i |-> 1], [t |-> 3, n |-> "x", i |-> 0] >>, im |-> << [t |-> 1, n |-> "y", i |-> 0] >>],
      [ex |-> << [t |-> 1, n |-> "y", i |-> 2] >>, im |-> << [t |-> 1, n |-> "x", i |-> 0], [t |-> 3, n |-> "x", i |-> 0] >>],
      [ex |-> <<>>, im |-> << [t |-> 1, n |-> "x", i |-> 0], [t |-> 1, n |-> "y", i |-> 1], [t |-> 1, n |-> "x", i |-> 2] >>],
      [ex |-> << [t |-> 1, n |-> "x", i |-> 0], [t |-> 1, n |-> "y", i |-> 1] >>, im |-> << [t |-> 1, n |-> "x", i |-> 0] >>]}"""
    cfg = "CONSTANTS Files = {\"P\", \"Q\"}\n Modules <- Mods\n Limit = %d\nSPECIFICATION Spec\nCHECK_DEADLOCK FALSE\n" % (4 if k == 1 else 5)
    cfg += "INVARIANTS ByName ByImport Linked\n"
    out, code = tlc("---- MODULE MC ----\nEXTENDS MeshDesign\nMods == %s\n====\n" % mods, cfg, workers=CPUS)
    tlc_ok(out, code, "MeshDesign")
    rep.model(out)


def play(rep, b, recs):
    for n, r in enumerate(recs):
        r["id"] = "l%d" % n
    want = pure.expect(rep, "Mesh", "Want", recs)
    scs = [dict(r, want=want[r["id"]]) for r in recs]
    res = feed(b, scs)
    rep.traces += len(res)
    bad = pure.report(rep, "mesh", b, res, "TestReplay", lambda s: "loads and calls %s" % json.dumps(
        [{k: v for k, v in a.items() if k in ("a", "m", "t", "n", "k", "i")} for a in s["p"]])[:700])
    rep.samples.append(json.dumps(recs[0]["p"])[:600])
    note("%d behaviours, %d steps, %d failed; calls: %s" % (len(scs), sum(len(s["p"]) for s in scs), len(bad), json.dumps(
        {x: sum(w["s"] == x for s in scs for w in s["want"]) for x in ("to", "none", "free")})))


def together(rep, b, scs):
    res = feed(b, scs)
    pure.report(rep, "mesh", b, res, "TestReplay", lambda s: "calls while modules are loaded")
    recs = [dict(r["rec"], id=s["id"]) for s, r in res if r.get("ok")]
    by = {s["id"]: (s, r) for s, r in res}
    bad = pure.validate(rep, "Mesh", "RunOk", recs)
    for i in bad[:3]:
        s, r = by[i]
        rep.violation("calls while modules are loaded: a call arrived elsewhere than at the latest exporter: %s" % json.dumps(r["rec"])[:600],
                      {"kind": "mesh", "scenario": s, "result": r})
    rep.traces += len(recs)
    note("%d recorded runs with %d calls, %d not allowed" % (len(recs), sum(len(r["calls"]) for r in recs), len(bad)))


def check(prop, tier, rep):
    rng = random.Random(SEED * 100 + 24)
    k = 8 if tier == "thorough" else 1
    small(rep, k)
    play(rep, build(), [scenario(rng, rng.choice([1, 2, 3, 4, 6])) for _ in range(350 * k)])
    scs = []
    for n in range(16 * k):
        names = [list(x) for x in NAMES[:rng.choice([2, 8])]]
        p = [dict(a="load", m=dict(module(rng, names, [1]))) for _ in range(8)]
        p[0]["m"]["ex"] = [dict(t=1, n=names[0], i=5)]
        scs.append(dict(id="c%d" % n, op="concurrent", p=p, want=[], seed=rng.randrange(1 << 30)))
    together(rep, build(True), scs)
    rep.bounds = dict(model="all histories of up to %d loads of 5 modules from 2 files" % (4 if k == 1 else 5),
                      code="up to 8 loads from 5 files, calls of all types by name and through importers, loads with calls going on")


def replay(r):
    rep = Report("C24", "quick")
    s = r["scenario"]
    if s["op"] == "concurrent":
        for _ in range(5):
            together(rep, build(True), [s])
        return [w for w, _ in rep.violations]
    res = confirm(build(), s)
    return [res] if res else []
