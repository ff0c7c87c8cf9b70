"""C07: stream ids."""
import random
import concurrent.futures as cf
from vlib import *
import pure

TOP = 2**31 - 1


def build():
    return gobuild("./internal/verifx/ids", {"internal/verifx/ids": "ids"})


def small(rep, side, bits, laps):
    top = 2**bits - 1
    cyc = top // 2 + (side == "client")
    cfg = "CONSTANTS Side = \"%s\"\n Top = %d\n Limit = %d\nSPECIFICATION Spec\nCHECK_DEADLOCK FALSE\n" % (side, top, laps * cyc + 3)
    cfg += "INVARIANTS NonZero Parity Apart Whole AllUsed Encoded\n"
    out, code = tlc("---- MODULE MC ----\nEXTENDS StreamIds\n====\n", cfg)
    tlc_ok(out, code, "StreamIds")
    rep.model(out)


def judge(rep, scs, res):
    obs = [dict(id=s["id"], kind=s["kind"], side=s["side"], k=s["k"], top=TOP, segs=r["segs"]) for s, r in res
           if "crash" not in r and r.get("segs") is not None]
    mod = "StreamIds"
    # The generator itself is not run here: its constants only need values.
    bad = _validate(rep, obs)
    return obs, bad


def _validate(rep, obs):
    body = """---- MODULE MC ----
EXTENDS Naturals, Sequences, TLC, Json
VARIABLE i
S == INSTANCE StreamIds WITH Side <- "client", Top <- 7, Limit <- 0, last <- 0, n <- 0, given <- <<>>
Recs == ndJsonDeserialize("in.ndjson")
Init == i = 0
Next == i < Len(Recs) /\\ i' = i + 1 /\\ (S!RunOk(Recs[i']) \\/ PrintT("@R" \\o ToJson([id |-> Recs[i'].id])))
Spec == Init /\\ [][Next]_i
====
"""
    out, code = tlc(body, "SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\n",
                    files=[("in.ndjson", "".join(json.dumps(o) + "\n" for o in obs))])
    tlc_ok(out, code, "StreamIds (runs)")
    rep.model(out)
    return [r["id"] for r in printed(out, "@R")]


def play(rep, b, scs, shards=CPUS):
    parts = [scs[i::shards] for i in range(shards)]
    res = []
    with cf.ThreadPoolExecutor(shards) as ex:
        for r in ex.map(lambda p: feed(b, p, shards=1, stall=300, env={"GOMAXPROCS": "4"}) if p else [], parts):
            res += r
    obs, bad = judge(rep, scs, res)
    rep.traces += len(obs)
    by = {s["id"]: (s, r) for s, r in res}
    for s, r in res:
        if "crash" in r:
            rep.violation("stream ids %s: %s" % (s, r["crash"][:300]), {"kind": "ids", "scenario": s, "result": r})
    for i in bad[:3]:
        s, r = by[i]
        rep.violation("%s ids, %s run of %d: ids ascend by 2 in the segments [first, count, first cycle] %s" % (
            s["side"], s["kind"], s["k"], json.dumps(r["segs"])), {"kind": "ids", "scenario": s, "result": r})
    rep.samples += obs[:2] + obs[-2:]
    note("%d runs, %d ids, %d not allowed" % (len(obs), sum(o["k"] for o in obs), len(bad)))


def check(prop, tier, rep):
    rng = random.Random(SEED)
    for side in ("client", "server"):
        for bits in (2, 3, 4, 5) if tier != "thorough" else (2, 3, 4, 5, 6, 7):
            small(rep, side, bits, 3)
    scs = []
    add = lambda **k: scs.append(dict(dict(back=0, lap=0, g=1), id="i%d" % len(scs), **k))
    for side in ("client", "server"):
        for k in (1, 2, 3, 10, 1000):
            add(kind="start", side=side, k=k)
        for lap in (1, 2, 3, 4, 5, 8):
            for back in (1, 2, 3, 5, 1000):
                add(kind="way", side=side, k=2 * back + 7, back=back, lap=lap)
                add(kind="manyway", side=side, k=4 * back * 2 + 4, back=back * 4, lap=lap, g=4)
        for g in (2, 4, 8):
            add(kind="many", side=side, k=g * (400000 if tier == "thorough" else 60000), g=g)
            for lap in (1, 2):
                add(kind="manyway", side=side, k=g * 40000, back=g * 20000, lap=lap, g=g)
    b = build()
    play(rep, b, scs)
    # The whole id space, from the first id on.
    whole = 2**30 + (2**30 - 7 if tier == "thorough" else 1000)
    scs = [dict(id="w" + s, kind="start", side=s, k=whole, back=0, lap=0, g=1) for s in ("client", "server")]
    play(rep, b, scs, shards=2)
    rep.bounds = dict(model="id spaces of 2 to %d bits, three laps" % (7 if tier == "thorough" else 5),
                      code="the whole 31-bit space of both sides from the first id on, windows around later wraps, up to 8 callers")


def replay(r):
    rep = Report("C07", "quick")
    play(rep, build(), [r["scenario"]], 1)
    return [w for w, _ in rep.violations]
