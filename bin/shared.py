"""C06, C08 and the handles of C26: histories of shared objects."""
import itertools, random
from vlib import *
import concurrent.futures as cf

SPEC = {"queue": ("Queue", "QStart", "QAfter"), "table": ("Table", "TStart", "TAfter"), "handles": ("Handles", "HStart", "HAfter"),
        "senders": ("Senders", "SStart", "SAfter")}


def build(race=False):
    return gobuild("./internal/verifx/shared", {"internal/verifx/shared": "shared"}, race=race)


def _accepted(kind, hs, timeout=700):
    module, start, after = SPEC[kind]
    mod = """---- MODULE MC ----
EXTENDS Naturals, Sequences, TLC, Json
VARIABLES t, l, st, pend
O == INSTANCE %s
Hist == ndJsonDeserialize("in.ndjson")
L == INSTANCE Lin WITH Start <- O!%s, After <- O!%s, Histories <- Hist
Spec == L!Spec
====
""" % SPEC[kind]
    out, code = tlc(mod, "SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\n",
                    files=[("in.ndjson", "".join(json.dumps(h) + "\n" for h in hs))], timeout=timeout)
    if code != 0 or "No error has been found" not in out:
        raise Broken("TLC cannot judge histories (exit %d):\n%s" % (code, "\n".join(l for l in out.splitlines() if not l.startswith('"@'))[-3000:]))
    return {r["id"] for r in printed(out, "@A")}, stats(out)


def judge(rep, kind, hists):
    """Indexes of histories that no order of the operations explains."""
    items = [dict(id=n, ev=h) for n, h in enumerate(hists) if h]
    n = max(1, min(CPUS, (len(items) + 99) // 100))
    parts = [items[i::n] for i in range(n)]
    ok = set()
    with cf.ThreadPoolExecutor(n) as ex:
        for a, (s, g) in ex.map(lambda p: _accepted(kind, p), parts):
            ok |= a
            rep.states += s
            rep.transitions += g
    return [x["id"] for x in items if x["id"] not in ok]


def brief(h):
    out = []
    for e in h:
        if e["e"] == "ret":
            out.append("ret %d" % e["p"])
        else:
            o = {k: v for k, v in e["op"].items() if v not in ("", [], False)}
            out.append("%s%s %s" % (e["e"], "" if e["e"] == "do" else " %d" % e["p"], json.dumps(o)))
    return "; ".join(out)


def play(rep, binary, scs, what, shards=CPUS):
    res = feed(binary, scs, stall=120, shards=shards)
    hists, owner = [], []
    for s, r in res:
        if not r.get("ok"):
            again = confirm(binary, s, stall=60)
            if again is not None and len(rep.violations) < 3:
                rep.violation("%s %s: %s" % (s["kind"], what, str(again.get("crash") or again.get("why"))[:400]),
                              {"kind": "shared", "scenario": s, "result": again})
            continue
        for h in r["hist"] or []:
            hists.append(h)
            owner.append(s)
    bad = judge(rep, scs[0]["kind"], hists)
    rep.traces += len(hists)
    for b in bad[:3]:
        h = hists[b]
        if not judge(Report("", ""), owner[b]["kind"], [h]):
            continue
        rep.violation("%s %s: no order of the operations explains %s" % (owner[b]["kind"], what, brief(h)[:700]),
                      {"kind": "shared", "scenario": owner[b], "history": h})
    if hists:
        rep.samples.append(brief(hists[len(hists) // 2])[:400])
    note("%s, %s: %d histories, %d events, %d not explained" % (scs[0]["kind"], what, len(hists), sum(map(len, hists)), len(bad)))


def O(**k):
    return dict(dict(v="", id="", h=""), **k)


def seqs(rng, kind, tier):
    out = []
    if kind == "queue":
        depth = 8 if tier == "thorough" else 6
        for n in (depth,):
            for ks in itertools.product(("put", "peek", "load", "dispose"), repeat=n):
                if ks.count("dispose") > 2:
                    continue
                out.append([O(op=k, v="v%d" % i if k == "put" else "") for i, k in enumerate(ks)])
        for _ in range(400):
            w = rng.choice([(5, 3, 3, .2), (3, 3, 3, .1), (9, 2, 1, .1), (2, 5, 5, .3)])
            ks = rng.choices(("put", "peek", "load", "dispose"), w, k=60)
            out.append([O(op=k, v="v%d" % i if k == "put" else "") for i, k in enumerate(ks)])
    elif kind == "table":
        ids = ["1", "3", "5"]
        look = [O(op="get", id=i) for i in ids + ["7", "0"]]
        acts = [("add", i) for i in ids] + [("remove", i) for i in ids] + [("remove", "7"), ("drain", "")]
        for ks in itertools.product(acts, repeat=5 if tier == "thorough" else 4):
            h = []
            for n, (k, i) in enumerate(ks):
                h += [O(op=k, id=i, v="s%d" % n if k == "add" else "")]
            # Looking must not disturb, so only some histories look after every step.
            every = rng.random() < .5
            h2 = []
            for x in h:
                h2 += [x] + (look if every else [])
            out.append(h2 + look)
        for _ in range(300):
            many = [str(rng.choice([2, 4, 2**31 - 1, 2**31 - 2, 6, 8, 10, 12, 1, 3])) for _ in range(8)]
            h = []
            for n in range(80):
                k = rng.choices(("add", "remove", "get", "drain"), (4, 3, 4, .15))[0]
                h.append(O(op=k, id=rng.choice(many), v="s%d" % n if k == "add" else ""))
            out.append(h + [O(op="get", id=i) for i in many])
    else:
        for ks in itertools.product([("put", "0"), ("get", "0"), ("get", "1"), ("remove", "0"), ("remove", "1"), ("get", "9"), ("remove", "9")],
                                    repeat=5 if tier == "thorough" else 4):
            out.append([O(op=k, h=h, v=rng.choice(("o%d" % n, "same", "twice")) if k == "put" else "") for n, (k, h) in enumerate(ks)] +
                       [O(op="get", h=str(i)) for i in range(6)])
        for _ in range(300):
            h = []
            for n in range(60):
                k = rng.choices(("put", "get", "remove"), (3, 3, 2))[0]
                h.append(O(op=k, h=str(rng.randrange(30)), v=rng.choice(("o%d" % n, "same", "twice")) if k == "put" else ""))
            out.append(h)
    # Far more things at a time than the histories above have.
    for size in (130, 300, 1100) if tier == "quick" else (130, 300, 600, 1100, 1100, 3000):
        h = []
        if kind == "queue":
            n = 0
            for part in (size, size // 3):
                h += [O(op="put", v="v%d" % (n + i)) for i in range(part)]
                n += part
                h += [O(op=k) for _ in range(rng.randrange(part)) for k in ("peek", "load")]
            h += [O(op="dispose"), O(op="put", v="late")] + [O(op=k) for _ in range(n + 2) for k in ("peek", "load")]
        elif kind == "table":
            ids = [str(2 * i + 1) for i in rng.sample(range(2 * size), size)]
            h += [O(op="add", id=i, v="s" + i) for i in ids]
            for i in rng.sample(ids, size):
                h += [O(op=rng.choice(("get", "get", "remove")), id=i)] + ([O(op="get", id=rng.choice(ids))] if rng.random() < .3 else [])
            h += [O(op="get", id=i) for i in ids]
        else:
            h += [O(op="put", v="o%d" % i) for i in range(size)]
            h += [O(op=rng.choice(("get", "get", "remove")), h=str(i)) for i in rng.sample(range(size), size)]
            h += [O(op="put", v="p%d" % i) for i in range(20)] + [O(op="get", h=str(i)) for i in rng.sample(range(size + 20), size + 20)]
        out.append(h)
    return [dict(id="%s%d" % (kind, n), kind=kind, ops=h) for n, h in enumerate(out)]


def objects(kind, tier, rep, seed):
    rng = random.Random(seed)
    b = build()
    play(rep, b, seqs(rng, kind, tier), "one after another")
    k = 8 if tier == "thorough" else 1
    scs = []
    for n in range(8 * k):
        procs = 2 + n % 3
        scs.append(dict(id="%sc%d" % (kind, n), kind=kind, ops=[], procs=procs, len=[5, 4, 3][procs - 2], rounds=400,
                        seed=rng.randrange(1, 2**31)))
    for n in range(8 * k):
        scs.append(dict(id="%sb%d" % (kind, n), kind=kind, ops=[], procs=2 + n % 3, len=[4, 3, 3][n % 3], rounds=20 if kind == "queue" else 2500,
                        seed=rng.randrange(1, 2**31), burst=kind != "queue"))
    play(rep, b, scs, "at the same time", shards=4)
    # Reads and writes that are not ordered are found by their lack of order, not by what comes of them.
    for s in scs:
        s["rounds"] = s["rounds"] // 4 if s.get("burst") else 100
    play(rep, build(True), scs, "at the same time, with the race detector", shards=4)


def build_senders(race=False):
    return gobuild("./internal/verifx/senders", {"internal/verifx/senders": "senders", "internal/verifx/wire": "wire"}, race=race)


def senders(tier, rep):
    deep = tier == "thorough"
    cfg = "CONSTANTS Procs = {1, 2%s}\n Count = %d\n Room = 4\nSPECIFICATION Spec\nINVARIANT Allowed\nCHECK_DEADLOCK FALSE\n" % (
        ", 3" if deep else "", 2)
    out, code = tlc("---- MODULE MC ----\nEXTENDS SendersDesign\n====\n", cfg, workers=4)
    tlc_ok(out, code, "SendersDesign")
    rep.model(out)
    rng = random.Random(SEED * 77)
    scs = []
    for n in range(6000 if deep else 1200):
        sizes = rng.choice([[0, 1, 5], [0, 10, 4000, 8170], [8192, 8193, 20000], [1, 8185, 8186, 8187, 8188, 8189], [30, 30000, 70000], [2000]])
        scs.append(dict(id="s%d" % n, kind="senders", seed=rng.randrange(1, 2**31), procs=rng.choice([1, 2, 3, 4, 6]), len=5, sizes=sizes,
                        fail=rng.choice([0, 0, 0, rng.randrange(1, 30000)]), lone=rng.random() < .4))
    for n in range(3):
        scs.append(dict(id="l%d" % n, kind="senders", seed=rng.randrange(1, 2**31), procs=3, len=2, sizes=[16777215 + 10, 20], fail=0, lone=False))
    b = build_senders()
    play(rep, b, scs, "on one connection", shards=3)
    play(rep, build_senders(True), scs[:len(scs) // 6], "on one connection, with the race detector", shards=3)
    rep.bounds = dict(design="%d senders of 2 frames each, every interleaving" % (3 if deep else 2),
                      code="%d recorded histories of up to 6 goroutines" % len(scs))


def check(prop, tier, rep):
    if prop == "C05":
        return senders(tier, rep)
    kind = {"C06": "queue", "C08": "table", "C26": "handles"}[prop]
    if kind == "queue":
        cfg = "CONSTANT Puts = %d\nSPECIFICATION DSpec\nINVARIANTS Fifo Explained AllComes EndIsLast\nPROPERTY Ends\nCHECK_DEADLOCK FALSE\n" % (
            7 if tier == "thorough" else 5)
        out, code = tlc("---- MODULE MC ----\nEXTENDS QueueDesign\n====\n", cfg)
        tlc_ok(out, code, "Queue")
        rep.model(out)
    objects(kind, tier, rep, SEED * 1000 + int(prop[1:]))
    rep.bounds.update({kind: "all short sequential histories, random long ones, and recorded histories of 2 to 4 goroutines"})


def replay(r):
    if "history" in r:
        return judge(Report("", ""), r["scenario"]["kind"], [r["history"]]) and ["not explained: " + brief(r["history"])]
    make = build_senders if r["scenario"]["kind"] == "senders" else build
    return confirm(make(), r["scenario"]) or confirm(make(True), r["scenario"])
