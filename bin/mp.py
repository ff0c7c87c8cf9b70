"""C21, C22: MessagePack."""
import random, struct
from vlib import *
import pure

INTS = ["int8", "int16", "int32", "int64"]
UINTS = ["uint8", "uint16", "uint32", "uint64"]
BITS = dict(int8=8, int16=16, int32=32, int64=64, uint8=8, uint16=16, uint32=32, uint64=64, int=64, uint=64)
SCALARS = ["bool"] + INTS + UINTS + ["float32", "float64", "string", "bytes", "time"]
READS = SCALARS + ["array", "map", "any", "skip", "isnil"]
LENS = [0, 1, 2, 15, 16, 17, 30, 31, 32, 33, 127, 128, 254, 255, 256, 257, 300]
BIG = [65534, 65535, 65536, 65537, 70000]
F32 = [0, 0x80000000, 0x3f800000, 0x7f800000, 0xff800000, 0x7fc00000, 1, 0x7f7fffff, 0x00800000, 0xbf9d70a4]
F64 = [0, 1 << 63, 0x3ff0000000000000, 0x7ff0000000000000, 0xfff0000000000000, 0x7ff8000000000000, 1, 0x7fefffffffffffff,
       0x3ff3ae147ae147ae, 0x36a0000000000000, 0x47efffffe0000000, 0x3ff0000000000001]


def be(n, k=8):
    return list((n & ((1 << (8 * k)) - 1)).to_bytes(k, "big"))


def edges(signed, bits):
    s = set()
    for k in (5, 7, 8, 15, 16, 31, 32, 63, 64):
        for d in (-2, -1, 0, 1):
            s |= {(1 << k) + d, -(1 << k) + d}
    s |= {0, 1, -1, 2, 100, -100}
    lo, hi = (-(1 << (bits - 1)), (1 << (bits - 1)) - 1) if signed else (0, (1 << bits) - 1)
    return sorted(x for x in s if lo <= x <= hi)


def number(rng, t):
    bits, signed = BITS[t], t[0] == "i"
    if rng.random() < 0.6:
        return rng.choice(edges(signed, bits))
    n = rng.getrandbits(rng.randrange(1, bits + 1))
    if signed:
        n >>= 1
        if rng.random() < 0.5:
            n = ~n
    return n


def rope(rng, n):
    if n <= 40 and rng.random() < 0.8:
        return [[0, rng.randrange(256)] for _ in range(n)]
    return [[n, rng.randrange(1 << 20)]] if n else []


SECS = [0, 1, 2**31 - 1, 2**31, 2**32 - 1, 2**32, 2**33, 2**34 - 1, 2**34, 2**35, -1, -2, -(2**31), -62135596800, -62135596801,
        253402300799, 2**40, 1700000000]
NANOS = [0, 1, 2, 3, 999999999, 999999998, 16383, 16384, 123456789, 500000000]


def scalar(rng, t, sizes=LENS):
    if t == "nil":
        return 0
    if t == "bool":
        return rng.random() < 0.5
    if t in BITS:
        return be(number(rng, t))
    if t == "float32":
        return be(rng.choice(F32) if rng.random() < 0.6 else rng.getrandbits(32), 4)
    if t == "float64":
        return be(rng.choice(F64) if rng.random() < 0.6 else rng.getrandbits(64))
    if t in ("string", "bytes"):
        return rope(rng, rng.choice(sizes) if rng.random() < 0.7 else rng.randrange(80))
    if t == "time":
        return dict(s=be(rng.choice(SECS) if rng.random() < 0.7 else rng.randrange(-2**36, 2**36)),
                    n=rng.choice(NANOS) if rng.random() < 0.7 else rng.randrange(10**9))
    if t in ("array", "map"):
        return be(rng.choice([0, 1, 15, 16, 17, 255, 256, 65535, 65536, 2**31, 2**32 - 1]) if rng.random() < 0.7
                  else rng.getrandbits(rng.randrange(1, 33)), 4)
    raise ValueError(t)


ELEMS = ["string", "time", "bool", "int", "int8", "int16", "int32", "int64", "uint", "uint16", "uint32", "uint64",
         "float32", "float64"]
KEYS = ["string", "int", "int8", "int16", "int32", "int64", "uint", "uint8", "uint16", "uint32", "uint64"]
BADS = ["struct", "chan", "ptr", "structs", "complex", "func"]


def distinct(rng, n, make):
    out, seen = [], set()
    for _ in range(4 * n):
        k = make()
        j = json.dumps(k)
        if j not in seen and len(out) < n:
            seen.add(j)
            out.append(k)
    return out


def tree(rng, depth, bad=0.0, codec=True):
    if rng.random() < bad:
        return dict(t="bad", e=rng.choice(BADS), v=0) if rng.random() < 0.7 else dict(t="failing", e="", v=0)
    x = rng.random()
    if depth == 0 or x < 0.35:
        t = rng.choice(SCALARS + ["nil", "int", "uint"])
        return dict(t=t, e="", v=scalar(rng, t, LENS[:10]))
    n = rng.choice([0, 1, 1, 2, 3, 4] + ([15, 16, 17] if depth > 1 and rng.random() < 0.2 else []))
    if x < 0.5:
        e = rng.choice(ELEMS)
        return dict(t="slice", e=e, v=[scalar(rng, e, LENS[:8]) for _ in range(n)])
    if x < 0.65:
        return dict(t="anys", e="", v=[tree(rng, depth - 1, bad, codec) for _ in range(n)])
    if x < 0.8:
        e = rng.choice(KEYS)
        ks = distinct(rng, n, lambda: scalar(rng, e, LENS[:6]) if e != "string" else lits(rng))
        return dict(t="dict", e=e, v=[[k, tree(rng, depth - 1, bad, codec)] for k in ks])
    if x < 0.86:
        ks = distinct(rng, n, lambda: lits(rng))
        return dict(t="strs", e="", v=[[k, scalar(rng, "string", LENS[:8])] for k in ks])
    if x < 0.95 or not codec:
        # Keys of different types that are written differently.
        ks = distinct(rng, n, lambda: rng.choice([dict(t="string", e="", v=lits(rng)), dict(t="bool", e="", v=rng.random() < 0.5),
                                                   dict(t="int64", e="", v=be(number(rng, "int64"))),
                                                   dict(t="nil", e="", v=0)]))
        return dict(t="anydict", e="", v=[[k, tree(rng, depth - 1, bad, False)] for k in ks])
    return dict(t="codec", e="", v=[wop(rng, 0) for _ in range(rng.randrange(1, 4))])


def lits(rng):
    return [[0, rng.randrange(256)] for _ in range(rng.randrange(5))]


def wop(rng, depth, bad=0.0, sizes=LENS):
    x = rng.random()
    if x < 0.25:
        return dict(o="any", null="no", v=tree(rng, depth, bad))
    if x < 0.3:
        return dict(o="nil", null="no", v=0)
    if x < 0.4:
        t = rng.choice(["array", "map"])
        return dict(o=t, null="no", v=scalar(rng, t))
    t = rng.choice(SCALARS)
    return dict(o=t, null=rng.choice(["no", "no", "some", "nil"]), v=scalar(rng, t, sizes))


# --------------------------------------------------------------------------
# Input for readers: values in any format, also in forms that no writer uses.

def length(rng, n, forms):
    """forms: [(code, bytes)] or [(fix, 0, limit)]"""
    ok = [f for f in forms if f[1] == 0 and n < f[2] or f[1] and n < 256 ** f[1]]
    f = rng.choice(ok)
    return [f[0] + n] if f[1] == 0 else [f[0]] + be(n, f[1])


STR = [(0xa0, 0, 32), (0xd9, 1), (0xda, 2), (0xdb, 4)]
BIN = [(0xc4, 1), (0xc5, 2), (0xc6, 4)]
ARR = [(0x90, 0, 16), (0xdc, 2), (0xdd, 4)]
MAP = [(0x80, 0, 16), (0xde, 2), (0xdf, 4)]


def blob(rng, n):
    return [rng.randrange(256) for _ in range(n)]


def wire(rng, depth, key=False):
    c = rng.choice(["fix", "fix", "nil", "bool", "f32", "f64", "int", "uint", "str", "str", "bin", "ext", "time", "arr", "map", "arr", "map"])
    if key and c in ("arr", "map", "bin", "ext") and rng.random() < 0.9:
        c = "str"
    if c in ("arr", "map") and depth == 0:
        c = "int"
    if c == "fix":
        return [rng.choice([0, 1, 127, 224, 255, rng.randrange(128), rng.randrange(224, 256)])]
    if c == "nil":
        return [0xc0]
    if c == "bool":
        return [rng.choice([0xc2, 0xc3])]
    if c == "f32":
        return [0xca] + be(rng.choice(F32), 4)
    if c == "f64":
        return [0xcb] + be(rng.choice(F64))
    if c in ("int", "uint"):
        k = rng.randrange(4)
        n = rng.choice(edges(c == "int", 8 << k)) if rng.random() < 0.7 else rng.getrandbits(8 << k)
        return [(0xd0 if c == "int" else 0xcc) + k] + be(n, 1 << k)
    n = rng.choice([0, 1, 2, 3, 5, 8, 15, 16, 31, 32, 40])
    if c == "str":
        if rng.random() < 0.1:
            s = list(rng.choice(["2023-01-02T03:04:05Z", "2023-01-02T03:04:05.123456789+02:00", "yesterday", "0001-01-01T00:00:00Z",
                                 "2023-13-02T03:04:05Z"]).encode())
            return length(rng, len(s), STR) + s
        return length(rng, n, STR) + blob(rng, n)
    if c == "bin":
        return length(rng, n, BIN) + blob(rng, n)
    if c == "ext":
        n = rng.choice([1, 2, 4, 8, 16])
        t = rng.choice([0, 1, 5, 12, 13, 14, 127, 128, 254, 255])
        if rng.random() < 0.5:
            return [{1: 0xd4, 2: 0xd5, 4: 0xd6, 8: 0xd7, 16: 0xd8}[n], t] + blob(rng, n)
        n = rng.choice([0, 1, 3, 4, 8, 11, 12, 13, 20])
        return length(rng, n, [(0xc7, 1), (0xc8, 2), (0xc9, 4)]) + [t] + blob(rng, n)
    if c == "time":
        n = rng.choice([4, 8, 12])
        t = rng.choice([255, 255, 255, 13])
        ns, s = rng.choice(NANOS + [10**9, 10**9 + 5, 2**30 - 1]), rng.choice(SECS)
        d = be(s, 4) if n == 4 else be((ns << 34) | (s & (2**34 - 1))) if n == 8 else be(rng.choice([ns, 2**32 - 1]), 4) + be(s)
        h = [{4: 0xd6, 8: 0xd7}[n]] if n < 12 and rng.random() < 0.6 else length(rng, n, [(0xc7, 1), (0xc8, 2), (0xc9, 4)])
        return h + [t] + d
    n = rng.choice([0, 1, 1, 2, 3, 4, 16 if depth > 1 and rng.random() < 0.2 else 2])
    if c == "arr":
        return length(rng, n, ARR) + sum((wire(rng, depth - 1) for _ in range(n)), [])
    return length(rng, n, MAP) + sum((wire(rng, depth - 1, True) + wire(rng, depth - 1) for _ in range(n)), [])


def natural(rng, q):
    b = q[0]
    if b < 128 or b >= 224 or 0xcc <= b <= 0xd3:
        return rng.choice(INTS + UINTS)
    if b < 0x90 or b >= 0xde:
        return "map"
    if b < 0xa0 or b in (0xdc, 0xdd):
        return "array"
    if b < 0xc0 or 0xd9 <= b <= 0xdb:
        return rng.choice(["string", "string", "time"])
    return {0xc0: "isnil", 0xc2: "bool", 0xc3: "bool", 0xc4: "bytes", 0xc5: "bytes", 0xc6: "bytes", 0xca: "float32",
            0xcb: rng.choice(["float64", "float32"])}.get(b, "time")


def rop(o, null=False):
    return dict(o=o, null=bool(null and o not in ("any", "skip", "array", "map", "isnil")))


def some_read(rng):
    k = rng.choice([1, 1, 2, 3, 5])
    q, ops = [], []
    for _ in range(k):
        w = wire(rng, rng.choice([0, 1, 2, 3]))
        x = rng.random()
        ops.append(rop("any" if x < 0.3 else "skip" if x < 0.6 else natural(rng, w) if x < 0.92 else rng.choice(READS),
                       rng.random() < 0.3))
        q += w
    x = rng.random()
    if x < 0.25:
        q = q[:rng.randrange(len(q) + 1)]
    elif x < 0.45:
        for _ in range(rng.choice([1, 1, 2, 4])):
            q[rng.randrange(len(q))] = rng.choice([0, 255, 127, 128, rng.randrange(256), rng.randrange(0xc0, 0xe0)])
    elif x < 0.5:
        i = rng.randrange(len(q) + 1)
        q[i:i] = blob(rng, rng.choice([1, 2, 5]))
    elif x < 0.55:
        q = blob(rng, rng.randrange(1, 40))
        ops = [rop(rng.choice(READS), rng.random() < 0.3) for _ in range(4)]
    return dict(op="read", q=q, ops=ops)


def lattice():
    """Every first byte with several continuations, for every operation."""
    rng = random.Random(5)
    out = []
    tails = [[], [0], [0, 0, 0, 1], [255] * 4, [255] * 18, [0] * 18, [127] + [255] * 17, [128] + [0] * 17, [0, 0, 0, 3, 1, 2, 3, 4, 5, 6, 7, 8],
             [0, 2, 255, 1, 1, 1, 1], [4, 255, 0, 0, 0, 9, 8], [255, 0, 0, 0, 9, 8, 7, 6, 5], [255, 255, 255, 255, 255]]
    for b in range(256):
        for t in tails:
            for o in READS:
                if t and o in ("float64", "bool", "map", "array") and rng.random() < 0.5:
                    continue
                out.append(dict(op="read", q=[b] + t, ops=[rop(o, rng.random() < 0.3), rop("isnil")]))
    for o in READS:
        out.append(dict(op="read", q=[], ops=[rop(o)]))
        out.append(dict(op="read", q=[], ops=[rop(o, True)]))
    return out


def build(arch=""):
    return gobuild("./internal/verifx/mp", {"internal/verifx/mp": "mp"}, arch=arch)


def narrow(x):
    """Whether all Go ints in a case can be made where int has 32 bits."""
    if isinstance(x, list):
        return all(narrow(y) for y in x)
    if not isinstance(x, dict):
        return True
    fits = {"int": lambda b: -2**31 <= int.from_bytes(bytes(b), "big", signed=True) < 2**31,
            "uint": lambda b: int.from_bytes(bytes(b), "big") < 2**32}
    if x.get("t") in fits:
        return fits[x["t"]](x["v"])
    if x.get("t") == "slice" and x["e"] in fits:
        return all(fits[x["e"]](v) for v in x["v"])
    if x.get("t") == "dict" and x["e"] in fits and not all(fits[x["e"]](k) for k, _ in x["v"]):
        return False
    return all(narrow(y) for y in x.values())


def play(rep, bs, recs, what, theorems=()):
    b, b32 = bs
    for n, r in enumerate(recs):
        r["id"] = "m%d" % n
    want = pure.expect(rep, "MsgPack", "Want", recs, theorems=theorems)
    scs = [dict(r, want=want[r["id"]]) for r in recs]
    bad = []
    # The int of a wasm guest has 32 bits.
    small = [dict(s, arch="386") for n, s in enumerate(scs) if (n % 3 == 0 or what == "reading integers") and narrow(recs[n])]
    for bin, ss in ((b, scs), (b32, small)):
        res = feed(bin, ss)
        rep.traces += len(res)
        bad += pure.report(rep, "mp", bin, res, "TestReplay", lambda s: "%s%s %s" % (what, " (32 bits)" if "arch" in s else "", json.dumps(
            {k: v for k, v in s.items() if k != "want"})[:500]))
    rep.samples.append({"what": what, "case": json.dumps(recs[len(recs) // 2])[:400]})
    note("%s: %d cases, %d failed" % (what, len(scs), len(bad)))


def c21(tier, rep, rng, b):
    k = 6 if tier == "thorough" else 1
    recs = []
    add = lambda *ops: recs.append(dict(op="write", ops=list(ops)))
    for t in INTS + UINTS:
        for n in edges(t[0] == "i", BITS[t]):
            for null in ("no", "some"):
                add(dict(o=t, null=null, v=be(n)))
            add(dict(o="any", null="no", v=dict(t=t, e="", v=be(n))))
    for t in ("int", "uint"):
        for n in edges(t == "int", 64):
            add(dict(o="any", null="no", v=dict(t=t, e="", v=be(n))))
    for t in ("string", "bytes"):
        for n in LENS + BIG:
            for null in ("no", "some"):
                add(dict(o=t, null=null, v=rope(rng, n)), dict(o="uint8", null="no", v=be(200)))
            add(dict(o="any", null="no", v=dict(t=t, e="", v=rope(rng, n))))
    for s in SECS:
        for n in NANOS:
            for o in (dict(o="time", null="no", v=dict(s=be(s), n=n)), dict(o="time", null="some", v=dict(s=be(s), n=n)),
                      dict(o="any", null="no", v=dict(t="time", e="", v=dict(s=be(s), n=n)))):
                add(o)
    for t, vs, w in (("float32", F32, 4), ("float64", F64, 8)):
        for v in vs:
            add(dict(o=t, null="no", v=be(v, w)))
            add(dict(o=t, null="some", v=be(v, w)))
            add(dict(o="any", null="no", v=dict(t=t, e="", v=be(v, w))))
    for v in (True, False):
        for null in ("no", "some", "nil"):
            add(dict(o="bool", null=null, v=v))
        add(dict(o="any", null="no", v=dict(t="bool", e="", v=v)))
    for t in SCALARS:
        add(dict(o=t, null="nil", v=scalar(rng, t)))
    for t in ("array", "map"):
        for n in (0, 1, 14, 15, 16, 17, 255, 256, 65534, 65535, 65536, 2**31 - 1, 2**31, 2**32 - 1):
            add(dict(o=t, null="no", v=be(n, 4)))
    add()
    for n in (0, 1, 15, 16, 17):
        for e in ELEMS:
            add(dict(o="any", null="no", v=dict(t="slice", e=e, v=[scalar(rng, e, LENS[:6]) for _ in range(n)])))
        for e in KEYS:
            ks = distinct(rng, n, lambda: scalar(rng, e) if e != "string" else lits(rng))
            add(dict(o="any", null="no", v=dict(t="dict", e=e, v=[[x, tree(rng, 0)] for x in ks])))
    for n in (65535, 65536, 65540) if tier == "thorough" else (300,):
        add(dict(o="any", null="no", v=dict(t="slice", e="bool", v=[bool(i % 3) for i in range(n)])))
    for e in BADS:
        add(dict(o="any", null="no", v=dict(t="bad", e=e, v=0)))
    add(dict(o="any", null="no", v=dict(t="failing", e="", v=0)))
    for _ in range(3000 * k):
        recs.append(dict(op="write", ops=[wop(rng, 2, 0.0) for _ in range(rng.choice([1, 1, 2, 3, 6]))]))
    for _ in range(300 * k):
        recs.append(dict(op="write", ops=[wop(rng, 2, 0.15) for _ in range(rng.choice([1, 2, 3]))]))
    for _ in range(300 * k):
        n = rng.choice([0, 1, 2, 3, 15, 16, 17])
        ops = [wop(rng, 1) for _ in range(rng.choice([1, 2, 3]))]
        ops = [o for o in ops if o["o"] not in ("any", "nil")] or [dict(o="bool", null="no", v=True)]
        items = [[dict(o, v=scalar(rng, o["o"], LENS[:9])) for o in ops] for _ in range(n)]
        if n and rng.random() < 0.1:
            items[rng.randrange(n)].append(dict(o="any", null="no", v=dict(t="bad", e="chan", v=0)))
        recs.append(dict(op="slice", items=items))
    play(rep, b, recs, "writing and reading back", ["WriteThm"])
    # What is read as a narrower type.
    recs = []
    for t in INTS + UINTS:
        for n in sorted(set(edges(True, 64) + edges(False, 64))):
            for form in range(0xcc, 0xd4):
                w = 1 << ((form - 0xcc) % 4)
                lo, hi = (0, 256**w - 1) if form < 0xd0 else (-(256**w) // 2, 256**w // 2 - 1)
                if lo <= n <= hi:
                    recs.append(dict(op="read", q=[form] + be(n, w), ops=[rop(t, n % 2)]))
        for n in list(range(128)) + list(range(224, 256)):
            recs.append(dict(op="read", q=[n], ops=[rop(t)]))
    play(rep, b, recs, "reading integers")
    ts = [dict(s=be(s), n=n) for s in SECS if -62135510400 <= s <= 253402200000 for n in NANOS]
    res = feed(b[0], [dict(id="t", op="stamps", want=ts)])
    pure.report(rep, "mp", b[0], res, "TestReplay", lambda s: "times as text")
    rep.bounds = dict(values="all types at every format boundary, nesting up to 3, strings up to 70000 bytes",
                      programs="up to 6 operations")


def c22(tier, rep, rng, b):
    k = 6 if tier == "thorough" else 1
    recs = lattice()
    if tier != "thorough":
        recs = [r for r in recs if rng.random() < 0.4]
    recs += [some_read(rng) for _ in range(12000 * k)]
    # Every truncation of some values.
    for _ in range(60 * k):
        w = wire(rng, 2)[:60]
        for n in range(len(w) + 1):
            recs.append(dict(op="read", q=w[:n], ops=[rop(rng.choice(["any", "skip"]))]))
    for _ in range(800 * k):
        ops = [rop(rng.choice(INTS + UINTS + ["string", "bool", "any", "skip"]), rng.random() < 0.3) for _ in range(rng.choice([1, 1, 2]))]
        n = rng.choice([0, 1, 2, 3, 16])
        q = length(rng, n, ARR)
        for _ in range(n):
            for o in ops:
                q += wire(rng, 1) if o["o"] in ("any", "skip") else [rng.randrange(100)] if "int" in o["o"] else \
                    [0xc2] if o["o"] == "bool" else [0xa2, 65, 66]
        if rng.random() < 0.4:
            q = q[:rng.randrange(len(q) + 1)]
        recs.append(dict(op="sliceread", q=q, ops=ops))
    for q in ([0xdd, 255, 255, 255, 255], [0xdd, 127, 255, 255, 255, 1, 2], [0xdc, 255, 255, 1], [0xdd, 1, 0, 0, 0], [0xc0], [0xc1], [], [0xa1, 1],
              [0xdd, 0, 1, 0, 0, 1], [0x9f], [0x9f] + [1] * 14):
        for o in ("uint8", "string", "any", "skip"):
            recs.append(dict(op="sliceread", q=list(q), ops=[rop(o)]))
    for kind in ("array", "map", "array16", "map32"):
        for d in [1, 10, 100, 1000, 9999, 10000, 10001, 100000, 1000000] + ([5000000] if tier == "thorough" else []):
            recs.append(dict(op="nest", kind=kind, depth=d))
    play(rep, b, recs, "reading")
    rep.bounds = dict(input="every first byte with 13 continuations for every operation; random values in every format, truncated and "
                            "mutated; nesting up to 1000000", programs="up to 5 operations")


def check(prop, tier, rep):
    rng = random.Random(SEED * 100 + int(prop[1:]))
    (c21 if prop == "C21" else c22)(tier, rep, rng, (build(), build("386")))


def replay(r):
    b = build(r["scenario"].get("arch", ""))
    res = confirm(b, r["scenario"])
    return [res] if res else []
