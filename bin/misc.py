"""C26: port envelopes and conversions (the handles are in shared.py)."""
import random
from fractions import Fraction
from vlib import *
import pure

SPEC = {"port": ("Port", "Want", ["SameAgain", "CutShort"]), "convert": ("Convert", "Want", ["Calendar"])}


def build():
    return gobuild("./internal/verifx/misc", {"internal/verifx/misc": "misc"})


def rb(rng, n):
    return [rng.choice((0, 1, 2, 3, 255, 0x80, rng.randrange(256))) for _ in range(n)]


def envelopes(rng, deep):
    out = []
    for n in (0, 1, 2, 3, 10, 127, 128, 254, 255, 256, 257, 300):
        for d in (0, 1, 2, 3, 5):
            for m in range(4):
                out.append(dict(op="encode", port=rb(rng, n), data=rb(rng, d), next=m & 1 == 1, complete=m & 2 == 2))
    for _ in range(3000 if deep else 600):
        out.append(dict(op="encode", port=rb(rng, rng.randrange(40)), data=rb(rng, rng.randrange(40)), next=rng.random() < .5, complete=rng.random() < .5))
    for f in range(256):
        for b in ([0, 0], [0, 1, 65], [0, 2, 65], [0], []):
            out.append(dict(op="decode", bytes=[f] + b))
    out.append(dict(op="decode", bytes=[]))
    for _ in range(6000 if deep else 1500):
        n = rng.randrange(12)
        out.append(dict(op="decode", bytes=[rng.randrange(256), rng.choice((0, 0, 0, 1, 255)), rng.choice((n, n + 1, n - 1 if n else 0, 0, 255))] + rb(rng, n)))
    for pn in (255, 256, 257, 4095, 32767, 32768, 65279, 65280, 65534, 65535):
        for dn in (0, 1, 70000):
            for m in range(4):
                out.append(dict(op="large", pn=pn, dn=dn, next=m & 1 == 1, complete=m & 2 == 2))
    for s in out:
        for k in ("port", "data", "bytes"):
            s.setdefault(k, [])
        for k in ("pn", "dn"):
            s.setdefault(k, 0)
        for k in ("next", "complete"):
            s.setdefault(k, False)
    return out


BITS = dict(int8=8, int16=16, int32=32, int64=64, int=64, uint8=8, uint16=16, uint32=32, uint64=64, uint=64)
TYPES = list(BITS) + ["float32", "float64"]


def holds(t, v):
    if isinstance(v, str):
        return t[0] == "f"
    if t in BITS:
        if v.denominator != 1:
            return False
        lo, hi = (-(1 << BITS[t] - 1), (1 << BITS[t] - 1) - 1) if t[0] == "i" else (0, (1 << BITS[t]) - 1)
        return lo <= v <= hi
    import struct
    try:
        return Fraction(struct.unpack(">" + ("f" if t == "float32" else "d"), struct.pack(">" + ("f" if t == "float32" else "d"), float(v)))[0]) == v
    except (OverflowError, ValueError):
        return False


def values():
    s = {Fraction(x) for x in (0, 1, -1, 2, 100, -100)}
    for k in (7, 8, 15, 16, 23, 24, 31, 32, 52, 53, 63, 64):
        for d in (-2, -1, 0, 1):
            s |= {Fraction((1 << k) + d), Fraction(-(1 << k) + d)}
    s |= {Fraction(1, 2), Fraction(-3, 4), Fraction(1, 1 << 149), Fraction(1 << 127), Fraction(1, 1 << 1000), Fraction(12345678901, 1 << 20)}
    return sorted(s) + ["+Inf", "-Inf", "NaN", "-0"]


def conversions(rng, deep):
    out = []
    for f in TYPES:
        for t in TYPES + ["same"]:
            to = f if t == "same" else t
            vs = [v for v in values() if holds(f, v) and holds(to, v)]
            for v in vs:
                out.append(dict(op="num", to=t, has=True, v=str(v), err=""))
                out[-1]["from"] = f
            for has in (True, False):
                out.append(dict(op="num", to=t, has=has, v="1" if has else "", err="mine"))
                out[-1]["from"] = f
            out.append(dict(op="num", to=t, has=False, v="", err=""))
            out[-1]["from"] = f
    for op, vs in (("string", ["", "x", "\u00e9\u0000", "long " * 50]), ("bool", ["true", "false"]), ("bytes", ["", "x", "abc\u0000"]),
                   ("parse", ["", "x", "yy"]), ("format", ["0", "-7", "123456789"])):
        for v in vs:
            for err in ("", "mine"):
                for bad in (False, True) if op == "parse" else (False,):
                    for has in (True, False):
                        if op == "format" and err:
                            continue
                        out.append(dict(op=op, has=has, v=v if has else "", err=err, bad=bad))
    lo, hi = -719162, 2932896  # the years 1 to 9999
    days = [lo + 1, lo + 2, hi - 1, 0, -1, 59, 60, 10956, 10957, 11015, 11016, 11017, 11322, 11323, 19782, 19783, 365, 364, -25509, -25508]
    for n in range(8000 if deep else 1500):
        t = dict(day=rng.choice(days) if rng.random() < .4 else rng.randrange(lo + 1, hi), sec=rng.choice((0, 1, 59, 60, 3599, 3600, 86399, rng.randrange(86400))),
                 nano=rng.choice((0, 0, 1, 10, 100000000, 999999999, 120000000, 999000000, 1000, rng.randrange(10**9))),
                 off=rng.choice((0, 0, 0, 60, -60, 330, -570, 1, -1, 720, -720, 14 * 60, 59, -59)))
        out.append(dict(op="time", t=t))
    for s in out:
        s.setdefault("has", False)
        s.setdefault("bad", False)
        for k in ("v", "err"):
            s.setdefault(k, "")
    return out


def run(rep, kind, scs):
    module, expr, thms = SPEC[kind]
    recs = []
    for n, s in enumerate(scs):
        s["id"] = "%s%d" % (kind[0], n)
        recs.append({k: v for k, v in s.items() if not (k == "v" and s["op"] in ("string", "bytes", "num"))} | ({"v": str(n)} if s["op"] in ("string", "bytes", "num") else {}))
    # The value is the value: the specification is given a name for it.
    want = pure.expect(rep, module, expr, recs, theorems=thms)
    for n, s in enumerate(scs):
        w = want[s["id"]]
        if kind == "convert" and w["res"]["has"] and w["res"]["v"] == str(n) and s["op"] in ("string", "bytes", "num"):
            w["res"]["v"] = s["v"]
        s["want"] = w
    binary = build()
    res = feed(binary, scs, stall=120)
    pure.report(rep, "misc", binary, res, "TestReplay", lambda s: {k: v for k, v in s.items() if k not in ("want", "id") and v not in ("", [], False)})
    rep.traces += len(res)
    rep.samples.append(json.dumps(scs[len(scs) // 2])[:300])
    note("%s: %d cases, %d fail" % (kind, len(res), sum(not r.get("ok") for _, r in res)))


def check(prop, tier, rep):
    rng = random.Random(SEED * 26 + 1)
    run(rep, "port", envelopes(rng, tier == "thorough"))
    run(rep, "convert", conversions(rng, tier == "thorough"))
    rep.bounds.update(ports="names up to 65,535 bytes, every byte of marks, lengths around the stated one",
                      conversions="all pairs of numeric types at their edges, presence, errors, times of the years 1 to 9999")


def replay(r):
    return confirm(build(), r["scenario"], test=r["test"])
