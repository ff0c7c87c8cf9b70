"""C31: the frames, operation lists and calls of the Rust ends."""
import random
from vlib import *
import frames, ops, pure
from frames import RR, FNF, RS, RC, REQN, CANCEL, PAYLOAD, ERROR, WITHMD, frame, limbs, lit, number, rope, some_frame, lattice

CRATES = ["wasmrs", "wasmrs-rx", "wasmrs-runtime"]
WORKSPACE = """[workspace]
members = ["wasmrs", "wasmrs-rx", "wasmrs-runtime", "wasmrs-codec", "harness"]
resolver = "2"
[profile.dev]
debug = 0
[workspace.dependencies]
futures = "0.3"
futures-core = "0.3"
futures-executor = "0.3"
futures-util = "0.3"
serde = "1"
bytes = "1.2"
tokio = "1"
async-trait = "0.1"
parking_lot = "0.12"
tracing = "0.1"
"""
# Only its error type is used, and its own dependency is not at hand.
CODEC = """pub mod error {
  #[derive(Debug)]
  pub struct Error;
  impl std::fmt::Display for Error {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { f.write_str("codec") }
  }
  impl std::error::Error for Error {}
}
"""


def build():
    d = os.path.join(tmp(), "rust")
    shutil.rmtree(d, ignore_errors=True)
    for c in CRATES:
        shutil.copytree(os.path.join(REPO, "rust", "crates", c), os.path.join(d, c), ignore=shutil.ignore_patterns("target"))
        p = os.path.join(d, c, "Cargo.toml")
        with open(p) as h:
            text = h.read()
        text = re.sub(r"(?ms)^\[dev-dependencies\]\n.*?(?=^\[|\Z)", "", text).replace('dashmap = "5.4"', 'dashmap = "6"')
        with open(p, "w") as h:
            h.write(text)
    os.makedirs(os.path.join(d, "wasmrs-codec", "src"))
    with open(os.path.join(d, "wasmrs-codec", "Cargo.toml"), "w") as h:
        h.write('[package]\nname = "wasmrs-codec"\nversion = "0.2.0"\nedition = "2021"\n')
    with open(os.path.join(d, "wasmrs-codec", "src", "lib.rs"), "w") as h:
        h.write(CODEC)
    shutil.copytree(os.path.join(HARNESS, "rust"), os.path.join(d, "harness"))
    shutil.move(os.path.join(d, "harness", "Cargo.lock"), os.path.join(d, "Cargo.lock"))
    with open(os.path.join(d, "Cargo.toml"), "w") as h:
        h.write(WORKSPACE)
    env = dict(os.environ, HOME=os.environ.get("HOME", "/root"), CARGO_NET_OFFLINE="true", CARGO_TARGET_DIR=os.path.join(d, "target"),
               RUSTFLAGS="--cap-lints allow -Awarnings", CARGO_TERM_COLOR="never")
    p = subprocess.run(["cargo", "build", "--offline", "-q", "-p", "harness"], cwd=d, env=env, stdout=subprocess.PIPE,
                       stderr=subprocess.STDOUT, text=True)
    if p.returncode:
        raise Broken("the Rust crates do not build:\n" + p.stdout[-3000:])
    note("the Rust crates are built")
    return os.path.join(d, "target", "debug", "harness")


def word(rng, n):
    """Text of n bytes."""
    return lit(rng.randrange(32, 127) for _ in range(n))


def textual(rng, f):
    """Messages of errors are text."""
    if f["type"] == ERROR and f["data"]:
        s = rng.choice(["no", "\u00e9t\u00e9", "\u4e16\u754c", "x" * rng.randrange(1, 60), "a\0b"])
        f = dict(f, data=lit(s.encode()))
    return f




def items(rng, hi=5):
    return dict(md=lit(rng.randrange(256) for _ in range(rng.choice([0, 0, 1, 8, 9]))),
                data=lit([rng.randrange(256)] + [rng.randrange(256) for _ in range(rng.choice([0, 1, hi, 40]))]))


def peer(f):
    return dict(a="peer", f=f)


def script(rng, n):
    """Calls of both sides, in turns."""
    side = rng.choice(["host", "guest"])
    own, theirs = (1, 2) if side == "host" else (2, 1)
    p, calls, chans, held, next_id = [], [], [], [], theirs
    for _ in range(n):
        x = rng.random()
        live = [c for c in calls if not c["over"]]
        feeding = [c for c in calls if c["k"] == "rc" and not c["closed"] and not c["dead"]]
        if x < .25 or not calls:
            k = rng.choice(["rr", "fnf", "rs", "rc", "rs", "rc"])
            p.append(dict(a="call", k=k, **items(rng)))
            calls.append(dict(k=k, n=len(calls) + 1, id=own + 2 * len(calls), over=k == "fnf", closed=False, dead=False, opened=False, left=False))
        elif x < .45 and feeding:
            c = rng.choice(feeding)
            if not c["opened"] or rng.random() < .7:
                p.append(dict(a="item", s=c["n"], **items(rng)))
                c["opened"] = True
            elif rng.random() < .5:
                p.append(peer(frame(REQN, c["id"], n=limbs(rng.choice([1, 1, 2, 3, 0x7fffffff])))))
            else:
                p.append(peer(frame(REQN, c["id"], n=limbs(0x7fffffff))))
                p.append(dict(a="close", s=c["n"]))
                c["closed"] = True
        elif x < .49 and [c for c in live if not c["left"]]:
            c = rng.choice([c for c in live if not c["left"]])
            if c["k"] != "rc" or c["opened"]:
                p.append(dict(a="leave", s=c["n"]))
                c["left"] = True
        elif x < .7 and live:
            c = rng.choice(live)
            if c["k"] == "rc" and not c["opened"]:
                continue
            if rng.random() < .15:
                p.append(peer(frame(ERROR, c["id"], n=limbs(rng.choice([513, 514, 515, 257, 0x201, 7, 0xffffffff])),
                                    data=word(rng, rng.choice([1, 2, 20])))))
                c["over"] = c["dead"] = True
            elif c["k"] == "rr":
                p.append(peer(frame(PAYLOAD, c["id"], next=True, comp=rng.random() < .8, **items(rng))))
                c["over"] = True
            else:
                last = rng.random() < .2
                nx = not last or rng.random() < .5
                p.append(peer(frame(PAYLOAD, c["id"], next=nx, comp=last, **(items(rng) if nx else {}))))
                c["over"] = last
        elif x < .73 and next_id > theirs:
            # Demand for an answer, over or not, changes nothing.
            p.append(peer(frame(REQN, rng.randrange(theirs, next_id, 2), n=limbs(rng.choice([1, 2, 0x7fffffff])))))
        elif x < .76 and [c for c in calls if c["over"] and c["k"] != "fnf"]:
            # Frames that come late mean nothing.
            c = rng.choice([c for c in calls if c["over"] and c["k"] != "fnf"])
            t = rng.choice([PAYLOAD, PAYLOAD, ERROR] if c["k"] == "rc" else [PAYLOAD, ERROR, REQN])
            late = frame(t, c["id"])
            if t == PAYLOAD:
                late.update(next=rng.random() < .7, comp=rng.random() < .5, **items(rng))
            elif t == ERROR:
                late.update(n=limbs(513), data=word(rng, 3))
            else:
                late.update(n=limbs(rng.choice([1, 0x7fffffff])))
            p.append(peer(late))
        elif held + chans and x < .8:
            i = rng.choice(held + chans)
            p.append(peer(frame(CANCEL, i)))
            (held if i in held else chans).remove(i)
            if rng.random() < .3:
                p.append(peer(frame(CANCEL, i)))
        elif chans and x < .88:
            i = rng.choice(chans)
            last = rng.random() < .3
            nx = not last or rng.random() < .5
            p.append(peer(frame(PAYLOAD, i, next=nx, comp=last, **(items(rng) if nx else {}))))
            if last:
                chans.remove(i)
        else:
            t = rng.choice([RR, FNF, RS, RC])
            p.append(peer(frame(t, next_id, n=limbs(rng.choice([1, 2, 0x7fffffff])) if t in (RS, RC) else [0, 0], **items(rng))))
            if t == RC:
                chans.append(next_id)
            if t == RS and 64 <= p[-1]["f"]["data"][0][1] < 128:
                held.append(next_id)
            next_id += 2
    return dict(op="socket", side=side, p=p)


def play(rep, binary, recs, module, expr, what, theorems=()):
    want = pure.expect(rep, module, expr, recs, theorems=theorems)
    scs = [dict(r, want=want[r["id"]]) for r in recs]
    for s in scs:
        if s["op"] == "socket":
            s["p"] = [dict(a, b=b) for a, b in zip(s["p"], s["want"].pop("bytes"))]
    res = feed(binary, scs)
    rep.traces += len(res)
    bad = pure.report(rep, "rust", binary, res, "TestReplay", lambda s: what + " " + s["op"])
    if scs:
        rep.samples.append({"what": what, "case": str(scs[len(scs) // 2])[:400]})
    note("%s: %d cases, %d failed" % (what, len(scs), len(bad)))


def listing(rng, n):
    """An operation list with names that are text, and names that are not in it."""
    names = ["a", "b", "ab", "", "greeting.v1", "sayHello", "a.b", "c", "b.c", "\u00e9t\u00e9", "A", "a ", "a\0b", "::", "x" * 255, "x" * 256, "y" * 300, "z" * 4000]
    pick = lambda: lit(rng.choice(names[:-4] if rng.random() < .9 else names).encode())
    q = [dict(t=rng.randrange(1, 5), d=rng.randrange(1, 3), i=ops.index(rng), ns=pick(), op=pick(),
              res=[rng.randrange(256) for _ in range(rng.choice([0, 0, 0, 1, 5, 300]))]) for _ in range(n)]
    ask = [dict(d=rng.randrange(1, 3), ns=e["ns"], op=e["op"]) for e in q[:20]]
    ask += [dict(d=rng.randrange(1, 3), ns=pick(), op=pick()) for _ in range(5)]
    return dict(op="foreign", ops=q, ask=ask)


def check(prop, tier, rep):
    rng = random.Random(SEED * 1000 + 31)
    k = 6 if tier == "thorough" else 1
    b = build()
    recs = [dict(op="frame", f=textual(rng, f)) for f in lattice()]
    recs += [dict(op="frame", f=textual(rng, some_frame(rng, frames.SMALL))) for _ in range(3000 * k)]
    recs += [dict(op="frame", f=textual(rng, some_frame(rng, frames.EDGE))) for _ in range(300 * k)]
    for t in (RR, RC, PAYLOAD):
        recs.append(dict(op="frame", f=frame(t, 77, md=[[1 << 20, 3]], data=[[1 << 21, 9]], n=limbs(9) if t == RC else [0, 0])))
    recs += [dict(op="metadata", i=ops.index(rng), more=lit([1] * rng.choice([0, 0, 1, 9])), cut=rng.randrange(4)) for _ in range(300)]
    recs += [dict(op="stream", fs=[rope(rng, rng.choice(frames.SMALL + frames.EDGE)) for _ in range(rng.randrange(5))]) for _ in range(100 * k)]
    play(rep, b, number(recs, "f"), "Foreign", "ForeignWant", "frames", ["ForeignThm"])
    recs = []
    for t in range(64):
        for fl in (0, 256, 352, 1023):
            for tail in ([], [0], [0, 0, 0], [0, 0, 1], [0, 0, 1, 9], [255, 255, 255], [0, 0, 0, 7, 0, 0, 2, 1], [0, 0, 0, 7, 255, 255, 255, 1]):
                recs.append(dict(op="bytes", bs=lit([0, 0, 0, 5] + list((t * 1024 + fl).to_bytes(2, "big")) + tail)))
    recs += [dict(op="bytes", bs=lit([x] * n)) for n in range(6) for x in (0, 255)]
    recs += [dict(op="bytes", bs=lit(frames.mutate(rng, frames.encode(frames.short(rng))))) for _ in range(2000 * k)]
    play(rep, b, number(recs, "b"), "Foreign", "ForeignWant", "any bytes", ["ForeignThm"])
    recs = [script(rng, n) for n in [3, 4, 6, 10, 20, 40] for _ in range(120 * k)]
    play(rep, b, number(recs, "s"), "Foreign", "ForeignWant", "calls", ["ForeignThm"])
    recs = [listing(rng, n) for n in [0, 1, 2, 3, 5, 20, 256, 300]] + [listing(rng, rng.choice([1, 2, 3, 5, 9])) for _ in range(400 * k)]
    play(rep, b, number(recs, "l"), "Ops", "Want", "operation lists")
    recs = [dict(op="parse", q=ops.damaged(rng)) for _ in range(1500 * k)]
    for _ in range(60):
        q = ops.flat([ops.entry(rng, 0) for _ in range(rng.choice([0, 1, 2]))])
        at = rng.randrange(6)
        q[at] = (q[at] + rng.randrange(1, 256)) % 256
        recs.append(dict(op="parse", q=q))
    for _ in range(300):
        q = ops.flat([dict(ops.entry(rng, 0), ns=ops.lit("a"), op=ops.lit(rng.choice(["b", "c", "\u00e9"]))) for _ in range(rng.choice([1, 2, 3]))])
        recs.append(dict(op="parse", q=q[:rng.randrange(len(q) + 1)] if rng.random() < .5 else q + [1] * rng.randrange(4)))
    play(rep, b, number(recs, "p"), "Ops", "Want", "any bytes as a list")
    rep.bounds = dict(frames="all flag and part combinations, boundary and random ids, demand and codes, parts up to 2 MiB",
                      calls="scripts of up to 40 steps of calls, items, answers and requests of the peer, both sides",
                      lists="up to 300 operations, reserved bytes, absent names")


def replay(r):
    return confirm(build(), r["scenario"])
