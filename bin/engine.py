"""Replays of the Engine specification on the three implementations."""
import concurrent.futures as cf
import random
from vlib import *

INVARIANTS = ["CreditConserved", "Forgotten", "NothingWaits"]
PROPERTIES = ["EndsOnce", "QuietAfterEnd", "DemandTravels", "StopsOnce", "Isolated"]

ENGINES = {
    "handler": dict(gated=True, closes=True, modes=["manual", "auto", "each", "block", "async"]),
    "host":    dict(gated=True, closes=True, modes=["manual", "auto", "each", "block", "async"]),
    "guest":   dict(gated=False, closes=False, modes=["manual", "auto", "each", "async"]),
}
KINDS = ["rqRR", "rqFNF", "rqRS", "rqRC", "rpRR", "rpFNF", "rpRS", "rpRC"]


def model(kinds, gated, closes, modes, routes=("ok", "second", "unknown", "short"), strays=True,
          items=2, demand=3, limited=True, export=True, workers=1):
    """Check the specification for the slots `kinds`; its transitions and TLC's output."""
    kv = " @@ ".join('("%s" :> "%s")' % kv for kv in kinds.items())
    st = lambda xs: "{%s}" % ", ".join('"%s"' % x for x in xs)
    mod = """---- MODULE MC ----
EXTENDS Engine, Json
KindV == %s
SlotsV == %s
ModesV == %s
RoutesV == %s
Export == PrintT("@E" \\o ToJson([s |-> View, a |-> act', o |-> out', t |-> View']))
====
""" % (kv, st(kinds), st(modes), st(routes))
    cfg = "CONSTANTS\n Kind <- KindV\n Slots <- SlotsV\n Modes <- ModesV\n Routes <- RoutesV\n"
    tf = lambda b: "TRUE" if b else "FALSE"
    cfg += " Gated = %s\n Limited = %s\n Closes = %s\n Strays = %s\n Items = %d\n Demand = %d\n" % (
        tf(gated), tf(limited), tf(closes), tf(strays), items, demand)
    cfg += "SPECIFICATION Spec\nVIEW View\nCHECK_DEADLOCK FALSE\n"
    if export:
        cfg += "ACTION_CONSTRAINT Export\n"
    cfg += "INVARIANTS %s\nPROPERTIES %s\n" % (" ".join(INVARIANTS), " ".join(PROPERTIES))
    out, code = tlc(mod, cfg, workers=workers)
    tlc_ok(out, code, "Engine with %s" % kinds)
    return out


_graphs = {}


def graphs(specs):
    """{key: (Graph, tlc output)} for (kind, parameters) pairs, TLC runs in parallel."""
    def one(key):
        kind, params = key
        out = model({"a": kind}, **dict(params))
        g = Graph.of(printed(out, "@E"))
        return key, g, out
    need = [k for k in specs if k not in _graphs]
    with cf.ThreadPoolExecutor(CPUS) as ex:
        for key, g, out in ex.map(one, need):
            _graphs[key] = (g, out)
    return {k: _graphs[k] for k in specs}


def key(kind, engine, **over):
    p = dict(ENGINES[engine])
    p.update(over)
    p["modes"] = tuple(p["modes"])
    if "routes" in p:
        p["routes"] = tuple(p["routes"])
    return kind, tuple(sorted(p.items()))


def steps(g, walk):
    return [{"a": g.edges[i][1], "o": g.edges[i][2]} for i in walk]


def rename(x, slot):
    """Steps of slot "a" for another slot."""
    a = dict(x["a"])
    if "s" in a:
        a["s"] = slot
    return {"a": a, "o": [[e[0], slot] + e[2:] for e in x["o"]]}


def gone(g, state):
    """Slots of a state of which nothing may be left (a handler that runs is the user's), and whether the connection is up."""
    if not hasattr(g, "back"):
        g.back = {n: json.loads(k) for k, n in g.names.items()}
    st, up = g.back[state]
    return sorted(s for s, r in st.items() if r["ph"] == "gone" and r["hnd"] != "called"), up


def single(engine, kind, g, rng, limit=18, maxwalks=None):
    walks, left = g.cover(rng, limit, maxwalks)
    return [dict(id="%s-%s-%d" % (engine, kind, n), engine=engine, seed=rng.randrange(1, 2**31),
                 kinds={"a": kind}, steps=steps(g, w), gone=gone(g, g.edges[w[-1]][3])[0]) for n, w in enumerate(walks)], left


def product(engine, gs, rng, n, slots, length, weight=lambda a: 1.0, tag="mix", close=0.0):
    """Random behaviours of several streams at once: the streams of the
    specification only meet in Close, which all of them take together."""
    out = []
    kinds = list(gs)
    for i in range(n):
        names = "abcdefgh"[:slots]
        ks = {s: rng.choice(kinds) for s in names}
        at = {s: gs[k].init for s, k in ks.items()}
        st = []
        up = True
        for _ in range(length):
            if up and close and rng.random() < close:
                # The effects on each stream are those of its own Close.
                o, ok = [], True
                nxt = {}
                for s in names:
                    g = gs[ks[s]]
                    c = [j for j in g.succ.get(at[s], ()) if g.edges[j][1]["a"] == "Close"]
                    if not c:
                        ok = False
                        break
                    nxt[s] = g.edges[c[0]][3]
                    o += [[e[0], s] + e[2:] for e in g.edges[c[0]][2]]
                if ok:
                    at = nxt
                    up = False
                    st.append({"a": {"a": "Close"}, "o": o})
                    continue
            s = rng.choice(names)
            g = gs[ks[s]]
            nxt = [j for j in g.succ.get(at[s], ()) if g.edges[j][1]["a"] != "Close"]
            if not nxt:
                continue
            j = rng.choices(nxt, [weight(g.edges[k][1]) for k in nxt])[0]
            at[s] = g.edges[j][3]
            st.append(rename({"a": g.edges[j][1], "o": g.edges[j][2]}, s))
        if st:
            out.append(dict(id="%s-%s-%d" % (engine, tag, i), engine=engine, seed=rng.randrange(1, 2**31),
                            kinds=ks, steps=st, gone=[s for s in names if gone(gs[ks[s]], at[s])[0]]))
    return out


COMMON = {"internal/verifx/engine": "engine", "internal/verifx/wire": "wire", "internal/verifx/relay": "relay"}


def build(engine):
    if engine == "guest":
        return gobuild("./internal/verifx/engine", COMMON, tags="wasi",
                       replace=[("transport/wasmrs/guest/imports_webassembly.go", "guest_imports.go")])
    return gobuild("./internal/verifx/engine", COMMON)


# --------------------------------------------------------------------------
# Checks

def explain(s, r):
    if "crash" in r:
        first = r["crash"].strip().splitlines()
        return "%s: %s" % (s["engine"], (first[0] if first else "crash")[:200])
    st = s["steps"][r["step"]]
    return "%s (%s), after %s: expected %s, observed %s" % (
        s["engine"], ",".join(s["kinds"].values()), json.dumps(st["a"], sort_keys=True),
        json.dumps(r.get("want")), json.dumps(r.get("got")))


def replay_all(rep, binary, scs, what):
    """Replay scenarios; failures that fail again are violations."""
    res = feed(binary, scs)
    rep.traces += len(res)
    bad = [(s, r) for s, r in res if not r.get("ok")]
    for s, r in bad[:3]:
        if "step" in r and "crash" not in r and r["step"] + 1 < len(s["steps"]):
            s = dict(s, steps=s["steps"][:r["step"] + 1])
        again = confirm(binary, s)
        if again is None:
            note("a failure did not repeat and is not reported:", explain(s, r)[:300])
            # Repeat the whole process' history: state can build up.
            continue
        rep.violation(explain(s, again), {"kind": "engine", "scenario": s, "result": again})
    if len(rep.samples) < 3 and scs:
        s = scs[len(scs) // 2]
        rep.samples.append({"engine": s["engine"], "kinds": s["kinds"], "steps": s["steps"][:8]})
    note("%s: %d behaviours, %d steps, %d failed" % (what, len(scs), sum(len(s["steps"]) for s in scs), len(bad)))
    return bad


# property: kinds, what is in the specification, the mix of behaviours
PLANS = {
    "C09": dict(kinds=["rpRR", "rpFNF", "rpRS", "rpRC"], over=dict(strays=False, closes=False, demand=2, items=1),
                repeat=12, mix=dict(n=400, slots=5, length=30)),
    "C10": dict(kinds=["rqRR", "rpRR"], over=dict(closes=False), repeat=25,
                mix=dict(n=1500, slots=7, length=50)),
    "C11": dict(kinds=["rqRS", "rqRC", "rpRS", "rpRC"], over=dict(strays=False, closes=False, routes=("ok", "second")),
                deep=dict(items=3, demand=4), repeat=1, mix=dict(n=500, slots=4, length=60)),
    "C12": dict(kinds=["rqRS", "rqRC", "rpRS", "rpRC"], over=dict(strays=False, closes=False, routes=("ok",), demand=4, items=2),
                deep=dict(items=3, demand=6), repeat=1, mix=dict(n=500, slots=3, length=60)),
    "C13": dict(kinds=["rqRC", "rpRC"], over=dict(strays=False, routes=("ok",)), deep=dict(items=3, demand=4),
                repeat=1, mix=dict(n=400, slots=3, length=60)),
    "C14": dict(kinds=KINDS, over=dict(routes=("ok",)), deep=dict(items=3, demand=4), repeat=1,
                mix=dict(n=600, slots=4, length=50), weight=lambda a: 3.0 if "ancel" in a["a"] or a.get("f") == "CANCEL" else 1.0),
    "C15": dict(kinds=KINDS, over=dict(closes=False, routes=("ok", "unknown", "short")), deep=dict(items=3, demand=4),
                repeat=1, mix=dict(n=800, slots=5, length=60)),
    "C30": dict(kinds=KINDS, over=dict(strays=False, routes=("ok", "unknown", "short")), repeat=1, forget=True,
                deep=dict(items=3, demand=4), mix=dict(n=300, slots=5, length=40, close=0.03)),
    "C16": dict(kinds=KINDS, over=dict(strays=False, routes=("ok",)), deep=dict(items=3, demand=4), repeat=1,
                engines=["handler", "host"], mix=dict(n=1500, slots=5, length=40, close=0.06)),
}


def check(prop, tier, rep):
    plan = PLANS[prop]
    rng = random.Random(SEED * 1000 + int(prop[1:]))
    engines = plan.get("engines", ["handler", "host", "guest"])
    over = dict(plan["over"])
    if tier == "thorough":
        over.update(plan.get("deep", {}))
    with cf.ThreadPoolExecutor(3) as ex:
        bins = {e: ex.submit(build, e) for e in (["guest", "handler"] if "guest" in engines else ["handler"])}
        keys = {e: [key(k, e, **{**over, "closes": ENGINES[e]["closes"] and over.get("closes", True)}) for k in plan["kinds"]]
                for e in engines}
        gs = graphs(sorted(set(k for ks in keys.values() for k in ks)))
        # Streams share nothing but the connection: checked on two at once.
        pair = dict(zip("ab", (plan["kinds"] * 2)[:2]))
        o2 = {**ENGINES["handler"], **over, "items": 1, "demand": 2, "export": False, "workers": 4}
        o2["closes"] = o2["closes"] and over.get("closes", True)
        two = ex.submit(model, pair, **o2) if tier == "thorough" else None
        bins = {e: f.result() for e, f in bins.items()}
        if two:
            rep.model(two.result())
    for k, (g, out) in gs.items():
        rep.model(out)
    rep.bounds = dict(kinds=plan["kinds"], items=over.get("items", 2), demand=over.get("demand", 3), engines=engines)
    for e in engines:
        b = bins["guest" if e == "guest" else "handler"]
        for k in keys[e]:
            g = gs[k][0]
            scs, left = single(e, k[0], g, rng)
            if left:
                raise Broken("%d transitions are on no walk" % left)
            # The same behaviours with other contents, ids and ways to close.
            more = plan["repeat"] * (4 if tier == "thorough" and len(scs) < 5000 else 1)
            if plan.get("forget"):
                scs = [dict(s, forget=True) for s in scs]
            allsc = list(scs)
            for i in range(1, more):
                allsc += [dict(s, id="%s.%d" % (s["id"], i), seed=rng.randrange(1, 2**31)) for s in scs]
            if replay_all(rep, b, allsc, "%s %s, every transition" % (e, k[0])):
                break
        m = dict(plan["mix"])
        if tier == "thorough":
            m["n"] *= 20
            m["length"] *= 2
        scs = product(e, {k[0]: gs[k][0] for k in keys[e]}, rng, m.pop("n"),
                      weight=plan.get("weight", lambda a: 1.0), **{**m, "close": m.get("close", 0.0) if e != "guest" else 0})
        if plan.get("forget"):
            scs = [dict(s, forget=True) for s in scs]
        replay_all(rep, b, scs, "%s, streams at once" % e)


def replay(r):
    s = r["scenario"]
    return confirm(build("guest" if s["engine"] == "guest" else "handler"), s)
