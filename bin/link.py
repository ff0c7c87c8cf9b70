"""C10-C14, C16: many requests at once between two real ends."""
import random
from vlib import *
import pure

MIX = {
    "C10": dict(kinds=["RR", "RR", "RR", "FNF", "RS"], reqs=14, cancel=0, fail=40, close=0),
    "C11": dict(kinds=["RS", "RS", "RC"], reqs=8, cancel=5, fail=30, close=0),
    "C12": dict(kinds=["RS", "RC"], reqs=8, cancel=10, fail=40, close=0),
    "C13": dict(kinds=["RC", "RC", "RC", "RS"], reqs=6, cancel=30, fail=40, close=0),
    "C14": dict(kinds=["RS", "RC", "RR"], reqs=8, cancel=70, fail=40, close=0),
    "C16": dict(kinds=["RR", "FNF", "RS", "RC"], reqs=8, cancel=25, fail=40, close=85),
}
COMMON = {"internal/verifx/link": "link", "internal/verifx/wire": "wire", "internal/verifx/relay": "relay"}
ENV = dict(GOMAXPROCS="4")


def build(race=False):
    return gobuild("./internal/verifx/link", COMMON, race=race)


def design(rep, deep):
    for channel, items, demand, closes in ([(False, 3, 4, True), (True, 2, 2, True)] if deep else
                                           [(False, 3, 3, True), (True, 1, 1, True)]):
        t = lambda b: "TRUE" if b else "FALSE"
        out, code = tlc("---- MODULE MC ----\nEXTENDS Link\n====\n",
                        "CONSTANTS\n Channel = %s\n Items = %d\n Demand = %d\n Closes = %s\nSPECIFICATION Spec\nCHECK_DEADLOCK FALSE\n"
                        "INVARIANTS Always Allowed Agree\n" % (t(channel), items, demand, t(closes)), workers=CPUS)
        tlc_ok(out, code, "Link")
        rep.model(out)


def check(prop, tier, rep):
    deep = tier == "thorough"
    rng = random.Random(SEED * 91 + int(prop[1:]))
    design(rep, deep)
    for race in (False, True):
        b = build(race)
        for link, rounds in (("native", 60), ("host", 20)):
            n = (60 if deep else 4) * CPUS
            scs = [dict(id="%s%d%d" % (link, race, i), seed=rng.randrange(1 << 31), rounds=rounds // (4 if race else 1),
                        link=link, **MIX[prop]) for i in range(n)]
            judge(rep, prop, b, scs, race, "%s%s" % (link, " (race detector)" if race else ""))


def judge(rep, prop, b, scs, race, what, quiet=False):
    res = feed(b, scs, test="TestLink", env=ENV)
    bad = [(s, r) for s, r in res if "recs" not in r]
    for s, r in bad[:2]:
        again = None if quiet else confirm(b, s, test="TestLink", env=ENV)
        if again:
            rep.violation("requests at once (%s): %s" % (what, str(again.get("crash") or again.get("why"))[:1500]),
                          {"kind": "link", "prop": prop, "scenario": s, "race": race})
    recs, of = [], {}
    total = 0
    for s, r in res:
        for x in r.get("recs") or ():
            total += 1
            k = json.dumps(x)
            if k not in of:
                of[k] = s
                recs.append(dict(x, id="r%d" % len(recs)))
    wrong = set(pure.validate(rep, "LinkRuns", "RunOk", recs)) if recs else set()
    rep.traces += total
    found = [(x, of[json.dumps({k: v for k, v in x.items() if k != "id"})]) for x in recs if x["id"] in wrong]
    if not quiet:
        for x, s in found[:3]:
            rep.violation("requests at once (%s): not allowed: %s" % (what, json.dumps(x)),
                          {"kind": "link", "prop": prop, "run": x, "scenario": s, "race": race})
        note("requests at once, %s: %d requests, %d different, %d not allowed, %d crashed" % (what, total, len(recs), len(found), len(bad)))
    return bad, found


def replay(r):
    b = build(r["race"])
    for i in range(20):
        bad, found = judge(Report(r["prop"], "replay"), r["prop"], b,
                           [dict(r["scenario"], id="x%d" % k) for k in range(8)], r["race"], "", True)
        if bad or found:
            return (bad + found)[:1]
    return []
