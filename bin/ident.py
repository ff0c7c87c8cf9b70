"""C27: identifiers."""
import random
from vlib import *
import pure

UPOOL = ([i for i in range(256)])


def build(race=False):
    return gobuild("./verifx", {"types/uuid/verifx": "uuid"}, cwd=os.path.join(GO, "types", "uuid"), race=race)


def some(rng):
    r = rng.random()
    if r < .3:
        return [rng.choice((0, 255, 0x80, 0x7f, 0x40, 0x0f, 0xf0, 9, 10, 0x9a, 0xa9)) for _ in range(16)]
    return [rng.randrange(256) for _ in range(16)]


def text(u):
    h = bytes(u).hex()
    return "-".join((h[:8], h[8:12], h[12:16], h[16:20], h[20:]))


def prints(rng, deep):
    out = []
    for b in range(256):
        for at in (6, 8, rng.randrange(16)):
            u = some(rng)
            u[at] = b
            out.append(u)
    for at in range(16):
        for b in (0, 255):
            u = [255 - b] * 16
            u[at] = b
            out.append(u)
    # Times around the epochs.
    for t in (0, 1, 0x01B21DD213814000, 0x01B21DD213814000 - 1, 0x01B21DD213814000 + 1, (1 << 60) - 1, 0x01B21DD213814000 + 10**7, 0x01B21DD213814000 - 10**7):
        b = t.to_bytes(8, "big")
        out.append(list(b[4:] + b[2:4] + b[:2]) + some(rng)[8:])
    out += [some(rng) for _ in range(4000 if deep else 500)]
    return [dict(op="print", bytes=u, text=[]) for u in out]


def parses(rng, deep):
    out = []

    def add(s):
        out.append([ord(c) for c in s] if isinstance(s, str) else s)

    def forms(u):
        p = text(u)
        return [p, "urn:uuid:" + p, "{" + p + "}", p.replace("-", "")]
    u = some(rng)
    for f in forms(u):
        f = [ord(c) for c in f]
        # Every position takes every kind of character.
        for at in range(len(f)):
            for c in [47, 48, 57, 58, 64, 65, 70, 71, 96, 97, 102, 103, 45, 0, 255, 32, 95, 120] if at in (0, 1, len(f) - 1) or deep else \
                    rng.sample([47, 58, 64, 65, 70, 71, 96, 97, 102, 103, 45, 0, 255, 32], 6):
                g = list(f)
                g[at] = c
                add(g)
        for n in range(len(f)):
            add(f[:n])
            add(f[n:])
    for n in list(range(60)) + [64, 72, 90, 128, 292, 301]:
        add("a" * n)
        add("-" * n)
        add("urn:uuid:" + "0" * n)
    for _ in range(3000 if deep else 400):
        u = some(rng)
        f = rng.choice(forms(u))
        k = rng.randrange(8)
        if k == 0:
            f = f.upper()
        elif k == 1:
            f = "".join(c.upper() if rng.random() < .5 else c for c in f)
        elif k == 2:
            f = f.replace("urn", "Urn").replace("{", "(").replace("}", '"')
        elif k == 3:
            i, j = sorted(rng.sample(range(len(f)), 2))
            f = f[:i] + f[j] + f[i + 1:j] + f[i] + f[j + 1:]
        elif k == 4:
            i = rng.randrange(len(f) + 1)
            f = f[:i] + rng.choice("-0aG{} ") + f[i:]
        elif k == 5:
            # Accepted once, wrapped again.
            f = rng.choice(("{%s}", "urn:uuid:%s", "x%sx")) % f
        add(f)
    res = [dict(op="parse", bytes=[], text=s) for s in out]
    for n in list(range(40)) + [64, 128]:
        res.append(dict(op="binary", bytes=[], text=[rng.randrange(256) for _ in range(n)]))
    return res


def draws(rng, deep):
    out = []
    for n in range(400 if deep else 80):
        steps = []
        for _ in range(rng.randrange(4, 20)):
            k = rng.randrange(10)
            if k < 4:
                steps.append(dict(op="new", n=rng.choice((1, 1, 2, 15, 16, 17, 40))))
            elif k == 4:
                steps.append(dict(op=rng.choice(("must", "string", "reader")), n=1))
            elif k == 5:
                steps.append(dict(op="pool", n=rng.randrange(2)))
            elif k == 6:
                steps.append(dict(op="fail", n=rng.choice((0, 1, 15, 16, 17, 100, 255, 256, 257, 300))))
            elif k == 7:
                steps.append(dict(op="short", n=rng.choice((1, 5, 15, 16, 17, 200))))
            elif k == 8:
                steps.append(dict(op=rng.choice(("empty", "last")), n=0))
            else:
                steps.append(dict(op="full", n=0))
        out.append(dict(op="draw", steps=steps, pool=rng.random() < .7, procs=0))
    return out


def crowd(rng, deep, race):
    return [dict(op="draw", steps=[dict(op="new", n=rng.randrange(17))], pool=rng.random() < .75, procs=rng.choice((2, 4, 8)),
                 each=40 if race else rng.choice((20, 100, 300))) for n in range((120 if deep else 24) // (3 if race else 1))]


def clocks(rng, deep):
    out = []
    for n in range(400 if deep else 80):
        segs = []
        sets = rng.choice((False, False, True))

        def steps(k, inside):
            r = []
            for _ in range(k):
                x = rng.random()
                if x < .6 or (x < .8 and not sets):
                    r.append(dict(op="get", n=0))
                elif x < .7:
                    r.append(dict(op="seq", n=0))
                elif x < .8:
                    r.append(dict(op=rng.choice(("set", "set", "reset")), n=rng.choice((0, 1, 5, 16383, 16384, 32768, 65535, 70000, rng.randrange(1 << 30)))))
                elif inside:
                    r.append(dict(op="sleep", n=rng.choice((1, 50, 99, 100, 101, 1000, 10**6, 10**9, 86400 * 10**9 * 400))))
                else:
                    r.append(dict(op="seq", n=0))
            return r
        for _ in range(rng.randrange(1, 6)):
            if rng.random() < .75:
                segs.append(dict(op="bubble", n=0, s=steps(rng.randrange(1, 25), True)))
            else:
                segs.append(dict(op="real", n=0, s=steps(rng.randrange(1, 8), False)))
        out.append(dict(op="clock", steps=segs))
    return out


def manys(rng, deep, race):
    out = []
    for p in (1, 2, 4, 8):
        for real in (False, True):
            for _ in range(6 if deep else 2):
                out.append(dict(op="many", procs=p, each=200 if race or real else 16383 // p, real=real))
    return out


def number(scs, tag):
    for n, s in enumerate(scs):
        s["id"] = "%s%d" % (tag, n)
        for k in ("bytes", "text", "steps"):
            s.setdefault(k, [])
    return scs


def brief(s):
    b = {k: v for k, v in s.items() if k not in ("want", "id", "rec") and v not in ("", [], 0, False)}
    if "text" in b:
        b["text"] = "".join(map(chr, b["text"]))
    return str(b)[:300]


def run(rep, scs, race=False):
    asked = [s for s in scs if s["op"] in ("print", "parse", "binary")]
    if asked:
        want = pure.expect(rep, "Uuid", "Want", asked, theorems=["AllForms", "Canonical"])
        for s in asked:
            s["want"] = want[s["id"]]
    b = build(race)
    res = feed(b, scs, stall=120)
    for s, r in res:
        r["race"] = race
    pure.report(rep, "ident", b, res, "TestReplay", brief)
    recs, owner = [], {}
    for s, r in res:
        if r.get("ok") and r.get("rec"):
            x = dict(r["rec"], id=s["id"])
            x["ev"] = x.get("ev") or []
            recs.append(x)
            owner[s["id"]] = s
    bad = judge(rep, recs)
    for i in bad[:3]:
        again = play(owner[i], b)
        if again:
            rep.violation("%s: %s" % (brief(owner[i]), again), {"kind": "ident", "scenario": owner[i], "race": race})
        elif owner[i].get("procs", 0) > 1:
            rec = [x for x in recs if x["id"] == i][0]
            rep.violation("%s: the recorded run is not allowed" % brief(owner[i]), {"kind": "ident", "scenario": owner[i], "recorded": rec, "race": race})
        else:
            note("a failure did not repeat and is not reported:", brief(owner[i]))
    rep.traces += len(res)
    rep.samples.append(brief(scs[len(scs) // 2]))
    note("%s%s: %d cases, %d fail, %d recordings not allowed" % (scs[0]["op"], " (race detector)" if race else "", len(res),
                                                              sum(not r.get("ok") for _, r in res), len(bad)))


def judge(rep, recs):
    return pure.validate(rep, "Uuid", "Recorded", recs) if recs else []


def play(s, b):
    """What is wrong with one more run, if anything."""
    for _ in range(3):
        for _, r in feed(b, [s], stall=120):
            if not r.get("ok"):
                return str(r.get("crash") or r.get("why"))[:400]
            if r.get("rec") and judge(Report("", ""), [dict(r["rec"], id="x", ev=r["rec"].get("ev") or [])]):
                return "the recorded run is not allowed: " + json.dumps(r["rec"])[:300]
    return None


def check(prop, tier, rep):
    deep = tier == "thorough"
    rng = random.Random(SEED * 27 + 3)
    cfg = "CONSTANTS Procs = {1, 2%s}\n Draws = %d\n PoolSize = 2\n Times = 3\n Seqs = 3\n" % ((", 3", 5) if deep else ("", 4))
    out, code = tlc("---- MODULE MC ----\nEXTENDS UuidDesign\n====\n", cfg + "SPECIFICATION Spec\nINVARIANTS Fresh NoRepeat\nCHECK_DEADLOCK FALSE\n")
    tlc_ok(out, code, "UuidDesign")
    rep.model(out)
    run(rep, number(prints(rng, deep), "w"))
    run(rep, number(parses(rng, deep), "p"))
    run(rep, number(draws(rng, deep), "d"))
    run(rep, number(crowd(rng, deep, False), "c"))
    run(rep, number(crowd(rng, deep, True), "rc"), True)
    run(rep, number(clocks(rng, deep), "t"))
    run(rep, number(manys(rng, deep, False), "m"))
    run(rep, number(manys(rng, deep, True), "rm"), True)
    rep.bounds.update(text="every position of every form, lengths to 301", draws="up to 8 goroutines, sources that fail at any byte",
                      clock="up to 125 steps with standing, slow and backward clocks, 16,383 draws at one time")


def replay(r):
    if "recorded" in r:
        return ["not allowed"] if judge(Report("", ""), [r["recorded"]]) else None
    return play(r["scenario"], build(r.get("race", False)))
