"""C01-C04: frames, fragments, byte streams and hostile bytes."""
import random
from vlib import *
import pure

COMMON = {"internal/verifx/codec": "codec", "internal/verifx/wire": "wire"}
RR, FNF, RS, RC, REQN, CANCEL, PAYLOAD, ERROR = range(4, 12)
TYPES = [RR, FNF, RS, RC, REQN, CANCEL, PAYLOAD, ERROR]
WITHN = (RS, RC, REQN, ERROR)
WITHMD = (RR, FNF, RS, RC, PAYLOAD)
IDS = [0, 1, 2, 3, 255, 256, 65535, 65536, 0x01020304, 0x7fffffff, 0x7ffffffe, 0x40000000]
NS = [0, 1, 2, 127, 255, 256, 65535, 65536, 0x7fffffff, 0x80000000, 0xffffffff, 0x01020304]


def limbs(n, k=2):
    return [(n >> (16 * (k - 1 - i))) & 0xffff for i in range(k)]


def lit(bs):
    return [[0, b] for b in bs]


def frame(t, i, **kw):
    f = dict(type=t, id=limbs(i), next=False, comp=False, foll=False, n=[0, 0], md=[], data=[])
    f.update(kw)
    return f


def rope(rng, n):
    """n bytes: written out when they are few."""
    if n <= 48 and rng.random() < 0.8:
        return lit(rng.randrange(256) for _ in range(n))
    return [[n, rng.randrange(1 << 20)]] if n else []


def some_frame(rng, sizes):
    t = rng.choice(TYPES)
    pick = lambda xs, hi: rng.choice(xs) if rng.random() < 0.6 else rng.randrange(hi)
    f = frame(t, pick(IDS, 1 << 31))
    if t in WITHN:
        f["n"] = limbs(pick(NS, 1 << 32))
    if t in WITHMD:
        f["foll"] = rng.random() < 0.4
        f["md"] = rope(rng, rng.choice(sizes))
    if t in (RC, PAYLOAD):
        f["comp"] = rng.random() < 0.5
    if t == PAYLOAD:
        f["next"] = rng.random() < 0.5
    if t in WITHMD or t == ERROR:
        f["data"] = rope(rng, rng.choice(sizes))
    return f


def lattice():
    """Every type with every combination of its flags and of absent and present parts."""
    out = []
    for t in TYPES:
        for i in (1, 0x7fffffff, 0x01020304):
            for k in range(8):
                nx, cp, fo = bool(k & 1), bool(k & 2), bool(k & 4)
                if nx and t != PAYLOAD or cp and t not in (RC, PAYLOAD) or fo and t not in WITHMD:
                    continue
                for md in ([], lit([0]), lit([1, 2, 3])) if t in WITHMD else ([],):
                    for da in ([], lit([0]), lit([255, 254, 7])) if t in WITHMD + (ERROR,) else ([],):
                        for n in ((0, 0x80000001, 0xfffffffe, 0x10203) if t in WITHN else (0,)):
                            out.append(frame(t, i, next=nx, comp=cp, foll=fo, md=md, data=da, n=limbs(n)))
    return out


def build():
    return gobuild("./internal/verifx/codec", COMMON)


def number(recs, tag):
    for n, r in enumerate(recs):
        r["id"] = "%s%d" % (tag, n)
    return recs


def play(rep, binary, recs, module, expr, what, theorems=()):
    want = pure.expect(rep, module, expr, recs, theorems=theorems)
    scs = [dict(r, want=want[r["id"]]) for r in recs]
    res = feed(binary, scs)
    rep.traces += len(res)
    bad = pure.report(rep, "frames", binary, res, "TestReplay", lambda s: what + " " + s["op"])
    if len(rep.samples) < 4:
        rep.samples.append({"what": what, "case": str(scs[len(scs) // 2])[:400]})
    note("%s: %d cases, %d failed" % (what, len(scs), len(bad)))


SMALL = [0, 0, 1, 2, 3, 5, 8, 13, 31]
EDGE = [0, 1, 255, 256, 257, 4096, 8189, 8192, 65535, 65536, 70001]


def c01(tier, rep, rng, binary):
    k = 5 if tier == "thorough" else 1
    recs = [dict(op="frame", f=f) for f in lattice()]
    recs += [dict(op="frame", f=some_frame(rng, SMALL)) for _ in range(6000 * k)]
    recs += [dict(op="frame", f=some_frame(rng, EDGE)) for _ in range(600 * k)]
    big = 16777215
    for t in (RR, RC, PAYLOAD):
        for md, da in ((big - 40, 5), (0, big - 20), (1 << 23, (1 << 23) - 40), (1 << 16, 1 << 16)):
            recs.append(dict(op="frame", f=frame(t, 77, md=[[md, 3]] if md else [], data=[[da, 9]], n=limbs(9) if t == RC else [0, 0])))
    play(rep, binary, number(recs, "f"), "Frames", "FrameWant", "encoding and decoding", ["FrameThm"])
    recs = []
    for t in range(64):
        for fl in range(32):
            low = rng.choice([0, 0, 1, 16, 31, rng.randrange(32)])
            recs.append(dict(op="header", type=t, flags=fl * 32 + low, sid=limbs(rng.choice(IDS + [rng.randrange(1 << 31)]))))
    play(rep, binary, number(recs, "h"), "Frames", "HeaderWant", "headers")
    recs = [dict(op="u24", v=v) for v in [0, 1, 255, 256, 65535, 65536, 16777214, 16777215, 16777216, 16777217, 2**31 - 1] +
            [rng.randrange(1 << rng.randrange(1, 31)) for _ in range(500)]]
    play(rep, binary, number(recs, "u"), "Frames", "U24Want", "24-bit lengths")
    rep.bounds = dict(frames="all flag and part combinations, boundary and random ids, credits and codes, parts up to 16 MiB")


def c02(tier, rep, rng, binary):
    recs = []
    for t in (RR, FNF, RS, RC, PAYLOAD):
        h = 6 + (4 if t in WITHN else 0)
        low = h + 3 + 1
        for mx in list(range(low, low + 8)) + [low + 17]:
            for md in (0, 1, 2, 3, 5, 8, 9, 13, 17, 18, 19, 30, 41):
                for da in (0, 1, 2, 4, 7, 8, 9, 16, 29, 40):
                    recs.append((t, mx, md, da))
    if tier != "thorough":
        rng.shuffle(recs)
        recs = recs[:3500]
    # Around the limit: parts that just fit and just do not.
    for t in (RR, FNF, RS, RC, PAYLOAD):
        h = 6 + (4 if t in WITHN else 0)
        for mx in (h + 4, h + 9, 64, 65, 1024, 65536):
            for md in {0, 1, mx - h - 4, mx - h - 3, mx - h - 2, mx - h, mx - 9, mx - 10, mx}:
                for da in {0, 1, mx - h - 3 - md, mx - h - 3 - md + 1, mx - h - 3 - md - 1, mx - h, mx - h + 1, mx - 6, 2 * mx}:
                    if md >= 0 and da >= 0:
                        recs.append((t, mx, md, da))
    for _ in range(4000 if tier == "thorough" else 800):
        t = rng.choice((RR, FNF, RS, RC, PAYLOAD))
        mx = rng.choice((14, 15, 16, 17, 20, 33, 64, 100, 1000, 65536)) + (rng.randrange(20) if rng.random() < .5 else 0)
        if mx >= 6 + (4 if t in WITHN else 0) + 4:
            recs.append((t, mx, rng.randrange(4 * mx), rng.randrange(6 * mx)))
    cases = []
    for t, mx, md, da in recs:
        f = frame(t, rng.choice(IDS[1:]), md=[[md, 11]] if md else [], data=[[da, 200000]] if da else [])
        if t in WITHN:
            f["n"] = limbs(rng.choice(NS[1:]))
        if t in (RC, PAYLOAD):
            f["comp"] = rng.random() < .5
        if t == PAYLOAD:
            f["next"] = rng.random() < .5
        cases.append(dict(op="fragment", f=f, max=mx))
    number(cases, "x")
    judge_fragments(rep, binary, cases)
    rep.bounds = dict(cases=len(cases), limits="14 to 65,555 bytes", parts="up to 6 times the limit")


def judge_fragments(rep, binary, cases):
    res = feed(binary, cases)
    rep.traces += len(res)
    obs, by = [], {}
    for s, r in res:
        if "crash" in r or r.get("why"):
            r["ok"] = False
            continue
        by[s["id"]] = (s, r)
        for via in ("mem", "wire"):
            obs.append(dict(id=s["id"] + "/" + via, f=s["f"], max=s["max"], fs=r["got"][via]))
    bad = pure.validate(rep, "Frames", "FragmentCase", obs, theorems=["SplitThm"])
    failed = {}
    for b in bad:
        i, via = b.rsplit("/", 1)
        failed[i] = dict(by[i][1], ok=False, why="fragments (%s) are not an allowed splitting: %s" % (via, json.dumps(by[i][1]["got"][via])[:300]))
    for s, r in res:
        if not r.get("ok"):
            failed[s["id"]] = r
            by[s["id"]] = (s, r)
    for i in list(failed)[:3]:
        s = by[i][0]
        r2 = feed(binary, [s], shards=1)[0][1]      # again, to be sure
        if json.dumps(r2.get("got")) != json.dumps(failed[i].get("got")) and "crash" not in r2:
            note("a failure did not repeat and is not reported")
            continue
        rep.violation("splitting: " + str(failed[i].get("crash") or failed[i].get("why"))[:500],
                      {"kind": "frames", "scenario": s, "result": failed[i], "judge": "fragments"})
    if cases:
        rep.samples.append(str(cases[len(cases) // 2])[:400])
    note("splitting: %d cases, %d observations, %d failed" % (len(cases), len(obs), len(failed)))


def cuts(rng, n, k):
    c = sorted(rng.randrange(0, n + 1) for _ in range(k))
    return [b - a for a, b in zip([0] + c, c + [n])]


ENDS = ["eof", "eofdata", "error", "closed", "errordata"]


def rlen(r):
    return sum(a or 1 for a, _ in r)


def framed(f):
    """Length of a frame with its length field."""
    n = 9 + (4 if f["type"] in WITHN else 0) + rlen(f["data"])
    if f["md"]:
        n += 3 + rlen(f["md"])
    return n


def c03(tier, rep, rng, binary):
    deframing(tier, rep)
    recs = []
    # Two short frames, cut in up to three places, with every kind of end.
    fs = [frame(PAYLOAD, 1, next=True, data=lit([9])), frame(CANCEL, 2), frame(RS, 3, n=limbs(7), md=lit([4]), data=lit([5]))]
    total = sum(map(framed, fs))
    for a in range(total + 1):
        for b in range(a, total + 1):
            for e in (ENDS if a % 3 == 0 else [rng.choice(ENDS)]):
                recs.append(dict(op="stream", fs=fs, drop=0, chunks=[a, b - a, total - b], end=e))
    # The stream stops at any byte.
    for d in range(total):
        for e in ENDS:
            recs.append(dict(op="stream", fs=fs, drop=d, chunks=cuts(rng, total - d, 2), end=e))
    for _ in range(6000 if tier == "thorough" else 1500):
        sizes = rng.choice([SMALL, SMALL, EDGE])
        fs = [some_frame(rng, sizes) for _ in range(rng.choice([0, 1, 2, 3, 5, 9, 14]))]
        n = sum(map(framed, fs))
        drop = rng.randrange(min(n, 30)) if n and rng.random() < .3 else 0
        style = rng.random()
        if style < .3:
            ch = [1] * (n - drop) if n - drop < 3000 else cuts(rng, n - drop, 40)
        elif style < .5:
            step = rng.choice([2, 3, 7, 4096, 8192, 8191])
            ch = [step] * ((n - drop) // step) + [(n - drop) % step]
        else:
            ch = cuts(rng, n - drop, rng.choice([0, 1, 3, 8, 20]))
        recs.append(dict(op="stream", fs=fs, drop=drop, chunks=ch, end=rng.choice(ENDS)))
    # Frames as long as they can be, between short ones.
    for n in (16777215 - 6, 16777215 - 7, 16777216 - 20000):
        fs = [frame(PAYLOAD, 1, next=True, data=lit([1])), frame(PAYLOAD, 2, next=True, data=[[n, 5]]), frame(CANCEL, 3)]
        t = sum(map(framed, fs))
        recs.append(dict(op="stream", fs=fs, drop=0, chunks=cuts(rng, t, 5), end="eofdata"))
        recs.append(dict(op="stream", fs=fs, drop=0, chunks=[t - 9, 9], end="eof"))
    play(rep, binary, number(recs, "s"), "Frames", "StreamWant", "a stream of frames", ["StreamThm"])
    # What is written is what the layout says, and a frame that is too long is refused.
    recs = []
    for _ in range(800):
        fs = [some_frame(rng, rng.choice([SMALL, EDGE])) for _ in range(rng.randrange(1, 7))]
        recs.append(dict(op="write", fs=fs))
    for n in (16777215 - 6, 16777215 - 5, 16777215 + 1, 16777216 + 300):
        recs.append(dict(op="write", fs=[frame(CANCEL, 3), frame(PAYLOAD, 2, next=True, data=[[n, 5]]), frame(REQN, 4, n=limbs(4))]))
    play(rep, binary, number(recs, "w"), "Frames", "WriteWant", "writing frames")
    rep.bounds.update(streams="all cuts of a 3-frame stream in two places, every truncation, random streams of up to 14 frames",
                      ends=ENDS)


def deframing(tier, rep):
    """The receiver as a state machine, for every cut of a short stream."""
    q = [3, 1, 2, 3, 1, 7, 2, 5, 6] if tier != "thorough" else [3, 1, 2, 3, 1, 7, 2, 5, 6, 1, 4, 3, 1]
    cfg = "CONSTANT Stream <- StreamV\nSPECIFICATION Spec\nINVARIANTS Prefix Complete Bounded\nPROPERTY AllDelivered\nCHECK_DEADLOCK FALSE\n"
    out, code = tlc("---- MODULE MC ----\nEXTENDS Deframe\nStreamV == <<%s>>\n====\n" % ", ".join(map(str, q)), cfg)
    tlc_ok(out, code, "Deframe")
    rep.model(out)


def mutate(rng, bs):
    bs = list(bs)
    for _ in range(rng.choice([1, 1, 1, 2, 4])):
        k = rng.random()
        if bs and k < .4:
            bs[rng.randrange(len(bs))] = rng.choice([0, 1, 0x7f, 0x80, 0xff, rng.randrange(256)])
        elif bs and k < .6:
            del bs[rng.randrange(len(bs)):]
        elif k < .8:
            bs.insert(rng.randrange(len(bs) + 1), rng.randrange(256))
        elif bs:
            del bs[rng.randrange(len(bs))]
    return bs


def encode(f):
    """Bytes of a short frame (only to have something to damage)."""
    out = list(b"".join(int(x).to_bytes(2, "big") for x in f["id"]))
    fl = 32 * f["next"] + 64 * f["comp"] + 128 * f["foll"] + 256 * bool(f["md"])
    out += list((f["type"] * 1024 + fl).to_bytes(2, "big"))
    if f["type"] in WITHN:
        for x in f["n"]:
            out += list(int(x).to_bytes(2, "big"))
    if f["md"]:
        out += list(len(f["md"]).to_bytes(3, "big")) + [b for _, b in f["md"]]
    return out + [b for _, b in f["data"]]


def short(rng):
    while True:
        f = some_frame(rng, SMALL)
        if all(n == 0 for n, _ in f["md"] + f["data"]):
            return f


def c04(tier, rep, rng, binary):
    k = 6 if tier == "thorough" else 1
    recs = []
    for t in range(64):
        for fl in (0, 256, 352, 1023):
            for tail in ([], [0], [0, 0], [0, 0, 0], [0, 0, 1], [0, 0, 1, 9], [255, 255, 255], [0, 0, 0, 0], [0, 0, 0, 7, 0, 0, 2, 1],
                         [0, 0, 0, 7, 0, 0, 2, 1, 2], [0, 0, 0, 7, 255, 255, 255, 1], [128, 0, 0, 0, 0, 0]):
                bs = [0, 0, 0, 5] + list((t * 1024 + fl).to_bytes(2, "big")) + tail
                recs.append(dict(op="bytes", bs=lit(bs)))
    for n in range(6):
        recs.append(dict(op="bytes", bs=lit([0] * n)))
        recs.append(dict(op="bytes", bs=lit([255] * n)))
    for _ in range(5000 * k):
        recs.append(dict(op="bytes", bs=lit(mutate(rng, encode(short(rng))))))
    for _ in range(1500 * k):
        bs = [rng.randrange(256) for _ in range(rng.randrange(0, 24))]
        if len(bs) > 5:
            bs[4] = rng.randrange(4, 12) * 4 + rng.randrange(4)
        recs.append(dict(op="bytes", bs=lit(bs)))
    play(rep, binary, number(recs, "b"), "Frames", "BytesWant", "decoding any bytes")
    recs = []
    for _ in range(2500 * k):
        fs = [encode(short(rng)) for _ in range(rng.randrange(0, 5))]
        bs = [b for f in fs for b in list(len(f).to_bytes(3, "big")) + f]
        if rng.random() < .7:
            bs = mutate(rng, bs)
        if rng.random() < .4:
            bs += [rng.choice([0, 0, 1, 5, 255, rng.randrange(256)]) for _ in range(rng.randrange(12))]
        recs.append(dict(op="junk", bs=lit(bs), chunks=cuts(rng, len(bs), rng.choice([0, 1, 3])), end=rng.choice(ENDS)))
    play(rep, binary, number(recs, "j"), "Frames", "JunkWant", "receiving any bytes")
    hostile_ends(tier, rep, rng)
    rep.bounds = dict(ends="up to 14 frames, damaged or not, for the native handler, the host and the guest with six requests under way",
                      bytes="all types with truncated and oversized fields, damaged frames, random bytes, damaged streams")


LIVE = 6        # requests under way when the junk comes, three of each side


def request(rng):
    """A request, likely for an operation there is."""
    t = rng.choice((RR, FNF, RS, RC))
    op = rng.choice([0, 0, 1, 1, 2, 3, 0x7fffffff, 0xffffffff, 0x80000000, 0x10000])
    md = list(op.to_bytes(4, "big")) + list(rng.choice([0, 0, 1, 2, 7, 0xffffffff]).to_bytes(4, "big"))
    md += [rng.randrange(256) for _ in range(rng.choice([0, 0, 1, 6]))]
    if rng.random() < .4:
        md = md[:rng.randrange(10)]
    n = rng.choice([0, 1, 2, 0x7fffffff, 0x80000000, 0xffffffff, 0xfffffffe])
    return frame(t, rng.choice([0, 200001, 200002, 0x7fffffff, 0x7ffffffe, 300000 + rng.randrange(40)]), foll=rng.random() < .08,
                 comp=t == RC and rng.random() < .3, n=limbs(n) if t in WITHN else [0, 0], md=lit(md),
                 data=lit(rng.randrange(256) for _ in range(rng.choice([0, 1, 4]))))


def followup(rng):
    t = rng.choice((REQN, CANCEL, PAYLOAD, PAYLOAD, PAYLOAD, ERROR))
    f = frame(t, rng.choice([0, 200001, 200002, 0x7fffffff]))
    if t in WITHN:
        f["n"] = limbs(rng.choice([0, 1, 3, 0x7fffffff, 0x80000000, 0xffffffff]))
    if t == PAYLOAD:
        f.update(next=rng.random() < .6, comp=rng.random() < .4, foll=rng.random() < .1, md=lit([7] * rng.choice([0, 0, 3])))
    if t in (PAYLOAD, ERROR):
        f["data"] = lit([rng.randrange(256)] * rng.choice([0, 1, 5]))
    return f


def hostile(rng, n):
    """Frames for an end in the middle of things."""
    out = []
    for _ in range(n):
        engine = rng.choice(["native", "native", "host", "guest", "guest"])
        fs = []
        damage = rng.choice([0, 0, .2, .6])
        for _ in range(rng.choice([1, 2, 4, 8, 14])):
            if rng.random() < .5:
                f, to = request(rng), 0 if rng.random() < .8 else rng.randrange(1, LIVE + 1)
            else:
                f, to = followup(rng), rng.randrange(LIVE + 1)
            bs = encode(f)
            if rng.random() < damage:
                bs = mutate(rng, bs)
            elif engine != "native" and rng.random() < .05:
                bs = [rng.randrange(256) for _ in range(rng.randrange(9))]
            if to == 0 and len(bs) >= 4 and bs[:2] == [0, 0] and bs[2] * 256 + bs[3] < 5000:
                bs[0] = 1       # not an id that is used later
            fs.append(dict(to=to, b=bs))
        apart = rng.random() < .4
        cut = rng.randrange(1, len(fs[-1]["b"]) + 2) if engine != "native" and not apart and rng.random() < .2 else 0
        out.append(dict(engine=engine, seed=rng.randrange(1 << 30), frames=fs, apart=apart, cut=cut))
    return number(out, "e")


def hostile_ends(tier, rep, rng):
    import engine
    cases = hostile(rng, 9000 if tier == "thorough" else 1500)
    obs, by = [], {}
    for guest in (False, True):
        binary = engine.build("guest" if guest else "native")
        res = feed(binary, [c for c in cases if (c["engine"] == "guest") == guest], test="TestHostile")
        rep.traces += len(res)
        pure.report(rep, "frames", binary, res, "TestHostile", lambda s: "junk for the " + s["engine"])
        obs += [r for s, r in res if r.get("ok")]
        by.update({s["id"]: (s, binary) for s, _ in res})
    bad = pure.validate(rep, "Hostile", "HostileOk", obs)
    for i in bad[:3]:
        s, binary = by[i]
        r = feed(binary, [s], shards=1, test="TestHostile")[0][1]
        if "crash" not in r and not pure.validate(rep, "Hostile", "HostileOk", [r]):
            note("a failure did not repeat and is not reported")
            continue
        rep.violation("junk for the %s: %s" % (s["engine"], r.get("crash") or r.get("why") or json.dumps(
            {k: r[k] for k in ("calls", "sent", "in", "out", "closed")}))[:500],
                      {"kind": "frames", "scenario": s, "result": r, "test": "TestHostile"})
    note("junk for ends with requests under way: %d cases, %d not allowed" % (len(cases), len(bad)))


CHECKS = {"C01": c01, "C02": c02, "C03": c03, "C04": c04}


def check(prop, tier, rep):
    rng = random.Random(SEED * 1000 + int(prop[1:]))
    CHECKS[prop](tier, rep, rng, build())


def replay(r):
    if r.get("test") == "TestHostile":
        import engine
        s = r["scenario"]
        res = feed(engine.build("guest" if s["engine"] == "guest" else "native"), [s], shards=1, test="TestHostile")[0][1]
        if "crash" in res or not res.get("ok"):
            return res.get("crash") or res.get("why") or "failed"
        return "not allowed: %s" % res if pure.validate(Report("C04", "quick"), "Hostile", "HostileOk", [res]) else None
    b = build()
    if r.get("judge") == "fragments":
        rep = Report("C02", "quick")
        judge_fragments(rep, b, [r["scenario"]])
        return [w for w, _ in rep.violations]
    return confirm(b, r["scenario"])
