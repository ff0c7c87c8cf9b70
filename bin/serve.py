"""C16: servers and the life of connections."""
import random
from vlib import *
import pure

PROPS = "INVARIANT Settled\nPROPERTIES OneEnd Apart LOnce\n"


def build(race=False):
    return gobuild("./internal/verifx/serve", {"internal/verifx/serve": "serve", "internal/verifx/wire": "wire"}, race=race)


def graph(rep, side, conns, most):
    mod = """---- MODULE MC ----
EXTENDS Serve, TLC, Json
Export == PrintT("@E" \\o ToJson([s |-> View, a |-> act', o |-> out', t |-> View']))
====
"""
    out, code = tlc(mod, "CONSTANTS Side = \"%s\"\n Conns = {%s}\n Max = %d\nSPECIFICATION Spec\nVIEW View\nCHECK_DEADLOCK FALSE\n"
                    "ACTION_CONSTRAINT Export\n" % (side, ",".join(map(str, range(1, conns + 1))), most) + PROPS)
    tlc_ok(out, code, "Serve")
    rep.model(out)
    return Graph.of(printed(out, "@E"))


def design(rep, conns):
    out, code = tlc("---- MODULE MC ----\nEXTENDS ServeDesign\n====\n", "CONSTANT Conns = {%s}\nSPECIFICATION Spec\nCHECK_DEADLOCK FALSE\n"
                    "INVARIANTS AllClosed NotHeld\nPROPERTY Stops\n" % ",".join(map(str, range(1, conns + 1))))
    tlc_ok(out, code, "ServeDesign")
    rep.model(out)


def many(rep, rng, count, conns=20, depth=70):
    """Random behaviours of a server that many connections are open at the same time on."""
    mod = """---- MODULE MC ----
EXTENDS Serve, TLC, Json
VARIABLE trail
New == {c \\in Conns : s.c[c].st = "none"}
Rest(c) == (RandomElement(1..4) = 1 /\\ End(c)) \\/ LastWords(c) \\/ Call(c) \\/ Answer(c) \\/ Push(c) \\/ Emit(c) \\/ Recall(c) \\/ Forget(c)
Step == IF trail = <<>> THEN Listen /\\ act'.ok
        ELSE IF Len(trail) < %d THEN Connect(CHOOSE c \\in New : TRUE)
        ELSE IF Len(trail) < %d THEN LET c == RandomElement({x \\in Conns : s.c[x].kept \\/ Open(x)}) IN (Rest(c) \\/ (RandomElement(1..9) = 1 /\\ Audit)) ELSE Next
Init2 == Init /\\ trail = <<>>
Next2 == Step /\\ trail' = Append(trail, [a |-> act', o |-> out'])
Spec2 == Init2 /\\ [][Next2]_<<vars, trail>>
Told == Len(trail) = %d => PrintT("@B" \\o ToJson(trail))
====
""".replace("\\\\", "\\") % (conns, depth - 6, depth)
    out, code = tlc(mod, "CONSTANTS Side = \"server\"\n Conns = {%s}\n Max = 2\nSPECIFICATION Spec2\nCHECK_DEADLOCK FALSE\nINVARIANTS Settled Told\n"
                    "PROPERTIES OneEnd Apart LOnce\n" % ",".join(map(str, range(1, conns + 1))),
                    extra=("-simulate", "num=%d" % (8 * count), "-depth", str(depth + 1), "-seed", str(rng.randrange(1 << 31))))
    ts = list({json.dumps(t[:depth - 1]): t for t in printed(out, "@B")}.values())[:count]
    if code or len(ts) < count / 2:
        raise Broken("TLC does not simulate Serve: %s" % out[-2000:])
    return ts


def steps(g, w):
    return [{"a": g.edges[i][1], "o": g.edges[i][2]} for i in w]


def check(prop, tier, rep):
    deep = tier == "thorough"
    rng = random.Random(SEED * 77 + 16)
    design(rep, 4 if deep else 3)
    b = build()
    scs, socks = [], []
    for side, conns, most in [("client", 1, 2), ("server", 1, 2), ("server", 2, 1)] + ([("server", 3, 1)] if deep else []):
        g = graph(rep, side, conns, most)
        ws, left = g.cover(rng, 30)
        note("%s: %d states, %d transitions, %d walks" % (side, len(g.names), len(g.edges), len(ws)))
        ws += [g.walk(rng, 40) for _ in range(2000 if deep else 200)]
        scs += [dict(side=side, steps=steps(g, w)) for w in ws]
        ok = lambda a: a["a"] != "Audit" and not (a["a"] == "Shut" and (a["c"] or a["how"] == "fail")) and a.get("how") != "reset" and \
            not (side == "client" and a["a"] in ("Call", "LastWords", "Answer"))
        socks += [dict(side=side, steps=steps(g, g.walk(rng, 14, skip=lambda a: not ok(a)))) for _ in range(400 if deep else 40)]
    ts = many(rep, rng, 400 if deep else 60)
    note("servers with many connections: %d behaviours of %d steps" % (len(ts), len(ts[0])))
    scs += [dict(side="server", steps=t) for t in ts]
    for n, s in enumerate(scs):
        s.update(id="s%d" % n, seed=rng.randrange(1 << 31))
    res = feed(b, scs)
    rep.traces += len(res)
    bad = pure.report(rep, "serve", b, res, "TestReplay", lambda s: "%s %s" % (s["side"], "; ".join(brief(x["a"]) for x in s["steps"])))
    note("servers and clients: %d behaviours, %d failed" % (len(scs), len(bad)))
    for n, s in enumerate(socks):
        s.update(id="n%d" % n, seed=rng.randrange(1 << 31))
    res = feed(b, socks, test="TestSockets")
    rep.traces += len(res)
    bad = pure.report(rep, "serve", b, res, "TestSockets", lambda s: "sockets, %s %s" % (s["side"], "; ".join(brief(x["a"]) for x in s["steps"])))
    note("servers and clients on sockets: %d behaviours, %d failed" % (len(socks), len(bad)))
    crowd(rep, deep)


def crowd(rep, deep):
    """Connections come and go while the server is closed."""
    rng = random.Random(SEED * 78 + 16)
    for race in (False, True):
        b = build(race)
        n = (40 if deep else 6) * CPUS
        scs = [dict(id="c%d%d" % (race, i), seed=rng.randrange(1 << 31), rounds=30 if race else 100) for i in range(n)]
        judge(rep, b, scs, race)


def judge(rep, b, scs, race, quiet=False):
    res = feed(b, scs, test="TestCrowd", env=dict(GOMAXPROCS="4"))
    bad = [(s, r) for s, r in res if "recs" not in r]
    for s, r in bad[:2]:
        again = confirm(b, s, test="TestCrowd", env=dict(GOMAXPROCS="4"))
        if again and not quiet:
            rep.violation("server used by several goroutines: %s" % str(again.get("crash") or again.get("why"))[:1500],
                          {"kind": "serve", "scenario": s, "test": "TestCrowd", "race": race})
    recs, of = [], {}
    for s, r in res:
        for x in r.get("recs", ()):
            k = json.dumps(x)
            if k not in of:
                of[k] = s
                recs.append(dict(x, id="r%d" % len(recs)))
    wrong = pure.validate(rep, "ServeRuns", "RunOk", recs)
    rep.traces += len(recs)
    found = []
    for x in recs:
        if x["id"] in wrong:
            k = json.dumps({a: v for a, v in x.items() if a != "id"})
            found.append((x, of[k]))
    if not quiet:
        for x, s in found[:2]:
            rep.violation("server used by several goroutines: not allowed: %s" % json.dumps(x),
                          {"kind": "serve", "run": x, "scenario": s, "test": "TestCrowd", "race": race})
        note("crowds%s: %d runs, %d different, %d not allowed, %d crashed" % (
            " (race detector)" if race else "", sum(s["rounds"] for s, _ in res), len(recs), len(found), len(bad)))
    return bad, found


def brief(a):
    return " ".join(str(v) for v in a.values())


def replay(r):
    if r.get("test") == "TestCrowd":
        b = build(r["race"])
        for i in range(30):
            bad, found = judge(Report("C16", "replay"), b, [dict(r["scenario"], id="x%d" % k, seed=r["scenario"]["seed"] + k) for k in range(8)], r["race"], True)
            if bad or found:
                return (bad + found)[:1]
        return []
    res = confirm(build(), r["scenario"], test=r.get("test", "TestReplay"))
    return [res] if res else []
