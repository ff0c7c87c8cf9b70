"""C25: frames through the buffers that host and guest share."""
import random
from vlib import *
import pure

ROOM = 16384


def build(side, race=False):
    dirs = {"internal/verifx/batch": "batch", "internal/verifx/wire": "wire"}
    if side == "guest":
        return gobuild("./internal/verifx/batch", dirs, tags="wasi", replace=[("transport/wasmrs/guest/imports_webassembly.go", "guest_imports.go")])
    return gobuild("./internal/verifx/batch", {**dirs, "internal/verifx/relay": "relay"}, race=race)


def sizes(rng, n, room):
    edge = [room - 9 - d for d in range(-3, 4)] + [room // 2 - 9 + d for d in (-1, 0, 1)]
    kind = rng.choice([[-1], [0, 1, 2, 30], [0, 100, 1000], edge, [room * 2, 5, 9, room // 3], [room // 4 - 9, room // 4 - 10, room // 4 - 8], edge + [-1, 3, 200, room * 3]])
    return [max(-1, rng.choice(kind)) for _ in range(n)]


def back(rng, room, count):
    out = [[rng.choice([0, 1, 20, 300, 3000]) for _ in range(rng.choice([1, 1, 2, 5, 30]))] for _ in range(count)]
    if rng.random() < .3 and out:
        out[0] = [rng.choice([room - 34, room - 33, room - 24, room - 23])]   # answers around the size of the buffer
    while any(sum(x + 35 for x in b) > 200000 for b in out):
        out = [b[:3] for b in out]
    return out, [rng.choice([0, 0, 0, 1, 2, 7, 22]) for _ in out]


def host(rng, n):
    procs = rng.choice([1, 1, 2, 3, 5])
    count = rng.choice([3, 12, 30]) if rng.random() < .85 else 130 // procs + 1
    q = [sizes(rng, count, ROOM) for _ in range(procs)]
    replies, cut = back(rng, ROOM, rng.choice([0, 1, 3, 8]))
    tiny = rng.choice([0, .2, .7])
    replies = [[-1 if rng.random() < tiny else x for x in b] for b in replies]
    at = lambda: rng.randrange(procs * count + 1)
    end = rng.choice(["", "", "", "close", "trap", "both"])
    return dict(id="h%d" % n, op="host", seed=rng.randrange(1 << 30), sizes=q, close=at() if end in ("close", "both") else -1,
                trap=at() if end in ("trap", "both") else -1, grow=rng.random() < .3, gate=rng.random() < .5, replies=replies, cut=cut, room=ROOM)


def guest(rng, n):
    room = rng.choice([160, 500, 4000, ROOM, ROOM])
    replies, cut = back(rng, room, rng.choice([1, 3, 8, 20]))
    replies = [[min(x, 3000) for x in b] for b in replies]
    for b in replies:
        if rng.random() < .3 and room < 5000:
            b[rng.randrange(len(b))] = room - 9 + rng.choice([-7, -6, -5, -1, 0, 1, 2])
    q = [rng.choice([0, 10, 100, room - 24 + rng.choice([-2, -1, 0, 1, 2]), room * 2]) for _ in range(rng.choice([0, 3, 12]))]
    return dict(id="g%d" % n, op="guest", seed=rng.randrange(1 << 30), sizes=[q], close=-1, trap=-1, grow=False, gate=False,
                replies=replies, cut=cut, room=room)


def runs(rep, b, scs, what):
    res = feed(b, scs, stall=60)
    pure.report(rep, "batch", b, res, "TestReplay", lambda s: "%s %s" % (s["op"], what))
    recs = [dict(r["rec"], id=s["id"]) for s, r in res if r.get("ok")]
    by = {s["id"]: (s, r) for s, r in res}
    bad = pure.validate(rep, "Batch", "RunOk", recs)
    for i in bad[:3]:
        s, r = by[i]
        x = r["rec"]
        rule = [n for n in ("Packed", "Complete", "InOrder", "Answers", "Back") if pure.validate(Report("", ""), "Batch", n, [dict(x, id=i)])]
        rep.violation("%s %s: a run is not allowed (%s): %d frames, %d batches of up to %d bytes, close %s, crash %s, frames back %s" % (
            s["op"], what, " ".join(rule), len(x["sends"]), len(x["batches"]), max([y["size"] for y in x["batches"]] + [0]),
            x["close"], x["trap"], json.dumps(x["back"])[:200]), {"kind": "batch", "scenario": s, "result": r})
    rep.traces += len(recs)
    if recs:
        rep.samples.append(json.dumps({k: recs[0][k] for k in ("sends", "batches", "close", "trap")})[:500])
    note("%s: %d recorded runs, %d frames in %d batches, %d frames back, %d not allowed" % (
        what, len(recs), sum(len(x["sends"]) for x in recs), sum(len(x["batches"]) for x in recs), sum(len(x["back"]["got"]) for x in recs), len(bad)))


def small(rep, tier):
    for procs, count, szs, live in [("{1, 2}", 1, "{1, 3, 8}", True), ("{1}", 3, "{1, 3, 8}", True)] + (
            [("{1, 2}", 2, "{3}", False)] if tier == "thorough" else []):
        cfg = "CONSTANTS Procs = %s\n Count = %d\n Sizes = %s\n Room = 10\n Cap = 1\nSPECIFICATION Spec\nINVARIANT Allowed\n%sCHECK_DEADLOCK FALSE\n" % (
            procs, count, szs, "PROPERTIES NothingStays EveryCallReturns\n" if live else "")
        out, code = tlc("---- MODULE MC ----\nEXTENDS BatchDesign\n====\n", cfg, workers=CPUS)
        tlc_ok(out, code, "BatchDesign")
        rep.model(out)


def check(prop, tier, rep):
    rng = random.Random(SEED * 100 + 25)
    k = 8 if tier == "thorough" else 1
    small(rep, tier)
    scs = [host(rng, n) for n in range(240 * k)]
    runs(rep, build("host"), scs, "into a module and back")
    runs(rep, build("guest"), [guest(rng, n) for n in range(600 * k)], "in a guest and back")
    runs(rep, build("host", True), scs[:40 * k], "into a module and back, with the race detector")


def replay(r):
    rep = Report("C25", "quick")
    s = r["scenario"]
    for race in (False, True):
        if s["op"] == "guest" and race:
            break
        for _ in range(3):
            runs(rep, build(s["op"], race), [s], "again")
    return [w for w, _ in rep.violations]
