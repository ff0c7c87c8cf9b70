"""C23: registered, published and read operation tables."""
import random
from vlib import *
import pure


def build():
    b = gobuild("./internal/verifx/ops", {"internal/verifx/ops": "ops", "internal/verifx/relay": "relay"},
                replace=[("transport/wasmrs/guest/imports_webassembly.go", "guest_imports.go")], tags="wasi")
    cmd = os.path.join(tmp(), "wasmrs-ops")
    p = subprocess.run(["go", "build", "-o", cmd, "./transport/wasmrs/cmd/wasmrs-ops"], cwd=GO, env=goenv(),
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode:
        raise Broken("wasmrs-ops does not build:\n" + p.stdout[-2000:])
    os.environ["VERIF_OPSCMD"] = cmd
    return b


def lit(s):
    return [[0, c] for c in (s.encode() if isinstance(s, str) else s)]


def name(rng, big=0.1):
    x = rng.random()
    if x < 0.1:
        return []
    if x < 0.1 + big:
        n = rng.choice([255, 256, 257, 1000, 32767, 32768, 65534, 65535, rng.randrange(1, 65536)])
        return [[n, rng.randrange(1 << 20)]]
    if x < 0.5:
        return lit(rng.choice(["a", "b", "ab", "abc", "greeting.v1", "sayHello", "a.b", "\u00e9t\u00e9", "A", "a ", "a\0b", "::"]))
    return lit([rng.randrange(256) for _ in range(rng.randrange(1, 24))])


def index(rng):
    n = rng.choice([0, 1, 2, 19, 20, 255, 256, 65535, 65536, 2**31 - 1, 2**31, 2**32 - 1]) if rng.random() < 0.6 else rng.getrandbits(32)
    return [n >> 16, n & 65535]


def entry(rng, big=0.1):
    return dict(t=rng.randrange(1, 5), d=rng.randrange(1, 3), i=index(rng), ns=name(rng, big), op=name(rng, big))


def flat(ops):
    """The bytes of a table, here only to have something to damage."""
    q = [0, 119, 114, 115, 0, 1] + list(len(ops).to_bytes(4, "big"))
    for o in ops:
        q += [o["t"], o["d"], o["i"][0] >> 8, o["i"][0] & 255, o["i"][1] >> 8, o["i"][1] & 255]
        for r in (o["ns"], o["op"]):
            q += list(len(r).to_bytes(2, "big")) + [b for _, b in r]
        res = o.get("res", [])
        q += list(len(res).to_bytes(2, "big")) + res
    return q


def damaged(rng):
    ops = [dict(entry(rng, 0), res=[rng.randrange(256) for _ in range(rng.choice([0, 0, 0, 1, 5]))])
           for _ in range(rng.choice([0, 1, 1, 2, 3, 5]))]
    q = flat(ops)
    x = rng.random()
    if x < 0.15:
        return q
    if x < 0.4:
        return q[:rng.randrange(len(q) + 1)]
    if x < 0.8:
        for _ in range(rng.choice([1, 1, 2, 3])):
            q[rng.randrange(len(q))] = rng.choice([0, 1, 2, 255, 127, 128, rng.randrange(256)])
        return q
    if x < 0.9:
        return q + [rng.randrange(256) for _ in range(rng.choice([1, 2, 12, 13]))]
    if x < 0.95:
        q[6:10] = rng.choice([[255] * 4, [128, 0, 0, 0], [0, 1, 0, 0], [0, 0, 255, 255], [21, 85, 85, 86], [0, 0, 0, len(ops) + 1]])
        return q
    return [rng.randrange(256) for _ in range(rng.randrange(40))]


def history(rng, n):
    names = [name(rng, 0.03) for _ in range(rng.choice([1, 2, 3, 5]))]
    if rng.random() < 0.4:
        # Pairs that only differ in where one name ends.
        names += [lit("a"), lit("ab"), lit("b"), lit("bc"), lit("c"), []]
    if rng.random() < 0.4:
        # And pairs that read the same with a separator between them.
        c = rng.choice([".", ".", "::", ":", "/", "#", "|", "-", "_", " ", ",", "\0"])
        names += [lit("a"), lit("a" + c + "b"), lit("b" + c + "c"), lit("c"), lit("b")]
    kinds = [1, 2, 3, 4] if rng.random() < 0.6 else [rng.randrange(1, 5)]
    p, counts = [], {t: 0 for t in range(1, 5)}
    for _ in range(n):
        x, t = rng.random(), rng.choice(kinds)
        a = dict(a="export", t=t, ns=rng.choice(names), op=rng.choice(names), i=[0, 0])
        if x < 0.4:
            counts[t] += 1
        elif x < 0.75:
            a["a"] = "import"
        elif x < 0.95:
            i = rng.choice([0, counts[t], counts[t] - 1, counts[t] + 1, rng.randrange(counts[t] + 2), 2**31, 2**32 - 1]) % 2**32
            a.update(a="get", i=[i >> 16, i & 65535])
        else:
            a["a"] = "publish"
        p.append(a)
    for t in kinds:
        for i in range(counts[t] + 2):
            p.append(dict(a="get", t=t, i=[0, i], ns=[], op=[]))
    return p + [dict(a="publish", t=1, i=[0, 0], ns=[], op=[])] * 2


def lookalikes(rng, t):
    """Different names that careless comparisons take for the same."""
    pairs = [("a", "b"), ("b", "a"), ("A", "b"), ("a", "B"), ("a ", "b"), ("a", " b"), ("", "ab"), ("ab", ""), ("a", ""), ("", "a"), ("", ""),
             ("a", "b\0"), ("\u00e9", "x"), ("e\u0301", "x"), ("a", "b1"), ("a1", "b")]
    for c in (".", ":", "::", "/", "#", "|", "-", "_", ",", ";", "@", "->", "\0", " ", "\n", "\t"):
        pairs += [("a" + c + "b", "c"), ("a", "b" + c + "c"), ("", "a" + c + "b"), ("a" + c + "b", "")]
    names = [(lit(a), lit(b)) for a, b in pairs]
    for n in (7, 15, 31, 63, 127, 255, 300, 4000):
        for k in (1, 2):
            names += [([[n, 7], [0, k]], lit("x")), (lit("x"), [[n, 7], [0, k]])]
    rng.shuffle(names)
    p = [dict(a="import", t=t, ns=a, op=b, i=[0, 0]) for a, b in names + names[::-1]]
    p += [dict(a="export", t=t, ns=a, op=b, i=[0, 0]) for a, b in names[:30] + names[:3]]
    p += [dict(a="get", t=t, ns=[], op=[], i=[0, i]) for i in range(35)]
    return p + [dict(a="publish", t=1, i=[0, 0], ns=[], op=[])]


def many(rng, t, n):
    """More operations of a type than a byte counts."""
    p = []
    for i in range(n):
        p.append(dict(a="export", t=t, ns=lit("m"), op=lit("e%d" % i), i=[0, 0]))
        p.append(dict(a="import", t=t, ns=lit("m"), op=lit("i%d" % i), i=[0, 0]))
    for i in (0, 1, 2, 127, 128, 255, 256, 257, n - 1):
        p.append(dict(a="import", t=t, ns=lit("m"), op=lit("i%d" % i), i=[0, 0]))
    for i in [0, 1, 2, 127, 128, 254, 255, 256, 257, n - 2, n - 1, n] + [rng.randrange(n) for _ in range(20)]:
        p.append(dict(a="get", t=t, ns=[], op=[], i=[0, i]))
    return p + [dict(a="publish", t=1, i=[0, 0], ns=[], op=[])]


def wasmfile(rng):
    names = [lit("wasmrs_ops"), lit("name"), lit("wasmrs_op"), lit("wasmrs_ops2"), [], lit("producers")]
    secs, used = [], []
    for _ in range(rng.randrange(7)):
        body = [[0, rng.randrange(256)] for _ in range(rng.choice([0, 1, 2, 10]))] if rng.random() < 0.7 else \
            [[rng.choice([100, 127, 128, 129, 300, 16383, 16384, 70000]), rng.randrange(1000)]]
        free = [n for n in names if n not in used]
        if rng.random() < 0.6 and free:
            n = rng.choice(free)
            used.append(n)
            secs.append(dict(id=0, name=n, body=body))
        else:
            secs.append(dict(id=rng.randrange(1, 12), name=[], body=body))
    return secs, rng.choice([[names[0]], [names[0]], [names[0], names[1]], names, []])


def play(rep, b, recs, what, theorems=()):
    for n, r in enumerate(recs):
        r["id"] = "o" * (n % 2) + str(n)
    want = pure.expect(rep, "Ops", "Want", recs, theorems=theorems)
    scs = [dict(r, want=want[r["id"]]) for r in recs]
    res = feed(b, scs)
    rep.traces += len(res)
    bad = pure.report(rep, "ops", b, res, "TestReplay", lambda s: "%s %s" % (what, json.dumps(
        {k: v for k, v in s.items() if k != "want"})[:400]))
    rep.samples.append({"what": what, "case": json.dumps(recs[len(recs) // 2])[:400]})
    note("%s: %d cases, %d failed" % (what, len(scs), len(bad)))


def check(prop, tier, rep):
    rng = random.Random(SEED * 100 + 23)
    k = 6 if tier == "thorough" else 1
    for kinds, limit in (("{1}", 5), ("{2, 4}", 4)) if k == 1 else (("{1}", 6), ("{2, 3}", 5), ("{1, 2, 3, 4}", 4)):
        cfg = "CONSTANTS Kinds <- K\n Names <- Nm\n Limit = %d\nSPECIFICATION Spec\nCHECK_DEADLOCK FALSE\n" % limit
        cfg += "INVARIANTS Numbered Imported Once ReadsBack\n"
        out, code = tlc("---- MODULE MC ----\nEXTENDS OpsModel\nK == %s\n"
                        "Nm == {<< <<97>>, <<98, 99>> >>, << <<97, 98>>, <<99>> >>, << <<>>, <<97>> >>}\n====\n" % kinds,
                        cfg, workers=CPUS)
        tlc_ok(out, code, "OpsModel")
        rep.model(out)
    b = build()
    recs = []
    for n in [0, 1, 2, 3, 20, 21, 255, 256, 300]:
        recs.append(dict(op="table", ops=[entry(rng, 0.01) for _ in range(n)]))
    for e in ([65535, 7], [65534, 1], [256, 3]):
        for f in ([65535, 7], [1, 1]):
            recs.append(dict(op="table", ops=[dict(t=3, d=1, i=[0, 0], ns=[e], op=[f]), dict(t=4, d=2, i=[1, 2], ns=[f], op=[e])]))
    recs += [dict(op="table", ops=[entry(rng) for _ in range(rng.choice([0, 1, 1, 2, 3, 5, 10]))]) for _ in range(600 * k)]
    recs += [dict(op="module", ops=[entry(rng, 0.02) for _ in range(rng.choice([0, 1, 2, 5, 30]))]) for _ in range(40 * k)]
    plain = lambda: lit(rng.choice(["a", "b", "x.y", "long.name.space"]))
    recs += [dict(op="embed", ops=[dict(entry(rng), ns=plain(), op=plain()) for _ in range(n)]) for n in (0, 1, 3, 40)[:2 + 2 * k]]
    play(rep, b, recs, "tables", ["TableThm", "CutThm"])
    play(rep, b, [dict(op="parse", q=damaged(rng)) for _ in range(2500 * k)], "damaged tables")
    recs = []
    for _ in range(300 * k):
        s, n = wasmfile(rng)
        recs.append(dict(op="file", secs=s, names=n, cut=-1))
        recs.append(dict(op="file", secs=s, names=n, cut=rng.choice([rng.randrange(60), rng.randrange(400)])))
    play(rep, b, recs, "wasm files")
    recs = [dict(op="history", p=history(rng, rng.choice([1, 2, 3, 5, 8, 15, 30]))) for _ in range(400 * k)]
    recs += [dict(op="history", p=history(rng, n)) for n in (80, 200)]
    recs += [dict(op="history", p=lookalikes(rng, t)) for t in (1, 2, 3, 4)]
    for t in (1, 2, 3, 4):
        recs.append(dict(op="history", p=many(rng, t, 300 if k == 1 else 1100)))
    play(rep, b, recs, "registrations")
    rep.bounds = dict(model="all histories of up to %d registrations" % (5 if k == 1 else 6),
                      code="tables of up to 300 entries, names of up to 65535 bytes, histories of up to 600 registrations")


def replay(r):
    res = confirm(build(), r["scenario"])
    return [res] if res else []
