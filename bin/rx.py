"""C17 to C20: fluxes, monos and flows."""
import itertools, random
import concurrent.futures as cf
from vlib import *
import pure

FLUX_PROPS = "INVARIANT Told\nPROPERTIES OneEnd InOrder NotesMatch DemandPassed CancelledOnce\n"
MONO_PROPS = "INVARIANT AllTold\nPROPERTIES Agree Kept RunOnce First\n"
SCRIPTS = ['<<>>', '<<"sub">>', '<<"sub","item">>', '<<"sub","item","complete">>', '<<"complete">>', '<<"item","error">>', '<<"sub","error">>',
           '<<"item","item">>']


def build(tags):
    return gobuild("./internal/verifx/rxx", {"internal/verifx/rxx": "rx"}, tags=tags)


def graph(module, view, cfg, props):
    mod = """---- MODULE MC ----
EXTENDS %s, Json
%s
Export == PrintT("@E" \\o ToJson([s |-> View, a |-> act', o |-> s'.out, t |-> View']))
====
""" % (module, view)
    out, code = tlc(mod, cfg + "SPECIFICATION Spec\nVIEW View\nCHECK_DEADLOCK FALSE\nACTION_CONSTRAINT Export\n" + props)
    tlc_ok(out, code, module)
    return Graph.of(printed(out, "@E")), out


def flux_graph(kind, mode, blocks, scripts, items, demand, notes=2):
    return graph("FluxModel", "ScriptsV == {%s}" % ", ".join(scripts),
                 "CONSTANTS Kinds = {\"%s\"}\n Modes = {\"%s\"}\n Items = %d\n Notes = %d\n Demand = %d\n Scripts <- ScriptsV\n Blocks = %s\n" % (
                     kind, mode, items, notes, demand, "TRUE" if blocks else "FALSE"), FLUX_PROPS)


def mono_graph(kind, mp, blocks, settles, notes=2, waits=2):
    return graph("MonoModel", "", "CONSTANTS Kinds = {\"%s\"}\n Maps = {\"%s\"}\n MaxNotes = %d\n Waits = %d\n Settles = %d\n Blocks = %s\n" % (
        kind, mp, notes, waits, settles, "TRUE" if blocks else "FALSE"), MONO_PROPS)


def steps(g, w):
    return [{"a": g.edges[i][1], "o": g.edges[i][2]} for i in w]


def walks(g, rng, limit, extra, length):
    ws, left = g.cover(rng, limit)
    assert left == 0
    return ws + [g.walk(rng, length) for _ in range(extra)]


def toward(g, rng, what, count, length=45):
    """Walks that mostly do one thing, from one that does little else to one that does anything."""
    ws = []
    for c in range(count):
        often = rng.choice([0.95, 0.8, 0.6])
        s, w = g.init, []
        while len(w) < length and g.succ.get(s):
            some = [i for i in g.succ[s] if g.edges[i][1]["a"] == what]
            e = rng.choice(some if some and rng.random() < often else g.succ[s])
            w.append(e)
            s = g.edges[e][3]
        ws.append(w)
    return ws


def play(rep, what, scs, tags, stall=60, env=None, shards=CPUS):
    b = build(tags)
    if not scs:
        return
    res = feed(b, scs, stall=stall, env=env, shards=shards)
    bad = pure.report(rep, "rx", b, [(s, r) for s, r in res], "TestReplay",
                      lambda s: "%s %s%s" % (what, describe(s), " (WebAssembly build)" if tags else ""))
    for w, r in rep.violations:
        r.setdefault("tags", tags)
    rep.traces += len(scs)
    s = scs[len(scs) // 2]
    rep.samples.append("%s: %s" % (describe(s), "; ".join(x["a"]["a"] for x in s["steps"])[:300]))
    note("%s%s: %d behaviours, %d steps, %d failing" % (what, " (wasi)" if tags else "", len(scs), sum(len(s["steps"]) for s in scs), len(bad)))


def describe(s):
    return " ".join(str(s.get(k, "")) for k in ("what", "kind", "map", "mode", "source") if s.get(k))


def fluxes(rep, tier, kinds):
    rng = random.Random(SEED * 31 + len(kinds))
    deep = tier == "thorough"
    items, demand = (4, 3) if deep else (3, 2)
    jobs = []
    for k in kinds:
        for m in ("auto", "manual", "each", "none"):
            for blocks in (True, False):
                for src in ("create", "processor"):
                    if k in ("error", "maperror") and src == "processor":
                        continue
                    jobs.append((k, m, blocks, src))

    def one(j):
        k, m, blocks, src = j
        return j, flux_graph(k, m, blocks, SCRIPTS if src == "create" else SCRIPTS[:1], items, demand)
    todo = {"": [], "wasi": []}
    with cf.ThreadPoolExecutor(CPUS) as ex:
        for (k, m, blocks, src), (g, out) in ex.map(one, jobs):
            rep.model(out)
            tags = "" if blocks else "wasi"
            for n, w in enumerate(walks(g, rng, 24, 600 if deep else 60, 30)):
                todo[tags].append(dict(id="%s-%s-%s-%d" % (k, m, src, n), what="flux", kind=k, mode=m, source=src, map="none", seed=1,
                                       steps=steps(g, w)))
    # Many who want to know, and many items.
    for k in kinds:
        if k in ("error", "maperror"):
            continue
        for m, blocks, src, (i, n, d) in ((m, bl, src, b) for m, bl, src in (("auto", True, "create"), ("manual", True, "processor"), ("each", False, "create"))
                                          for b in ((1, 12, 1), (10, 1, 1))):
            g, out = flux_graph(k, m, blocks, ['<<>>', '<<"sub","item">>'] if src == "create" else ['<<>>'], i, d, n)
            rep.model(out)
            ws = toward(g, rng, "notify" if n > 1 else "item", 120 if deep else 24)
            for c, w in enumerate(ws):
                todo["" if blocks else "wasi"].append(dict(id="many-%s-%s-%d-%d" % (k, m, n, c), what="flux", kind=k, mode=m, source=src, map="none", seed=1,
                                                           steps=steps(g, w)))
    for tags, scs in todo.items():
        play(rep, "flux", scs, tags)
    rep.bounds["flux"] = "every transition of one flux: %d items, demands to %d, 2 notifications; %s" % (items, demand, ", ".join(kinds))


def act(a, **k):
    return dict(dict(a=a, via="", script=[], react="", how="", n=0, which=[]), **k)


def slices(rep, tier):
    rng = random.Random(SEED * 37)
    recs = []
    for left in (0, 1, 2, 3, 5, 9):
        for mode in ("auto", "manual", "each", "none"):
            for src in ("from", "response"):
                for n in range(60 if tier == "thorough" else 12):
                    plan = [rng.choice(["", "", "req", "req", "cancel" if rng.random() < .3 else ""]) for _ in range(left)] if n else [""] * left
                    acts = [act("subscribe", via="sub", script=["sub"])]
                    for _ in range(rng.randrange(1, 7)):
                        acts.append(act("cancel") if rng.random() < .1 else act("request", n=rng.choice([1, 1, 2, 3, 7, 1000])))
                    # The specification sets the source while it runs.
                    recs.append(dict(id="sl%d" % len(recs), what="slice", flux="plain", kind="plain", mode=mode, source=src, map="none", left=left,
                                     plan=plan, acts=acts, seed=1))
    want = pure.expect(rep, "Flux", "Slice", recs)
    for tags in ("", "wasi"):
        scs = []
        for r in recs:
            if tags and r["mode"] == "each" and "req" in r["plan"]:
                continue    # items within items: how often it is asked depends on the nesting
            st = [{"a": dict(a, a="requestmax") if a["a"] == "request" and a["n"] == 1000 else a, "o": o} for a, o in zip(r["acts"], want[r["id"]])]
            scs.append(dict({k: v for k, v in r.items() if k not in ("acts", "flux")}, steps=st))
        play(rep, "slice", scs, tags)


def monos(rep, tier, maps):
    rng = random.Random(SEED * 41 + len(maps))
    todo = {"": [], "wasi": []}
    jobs = list(itertools.product(("create", "processor", "just", "error"), maps, (True, False)))
    with cf.ThreadPoolExecutor(CPUS) as ex:
        for (k, m, blocks), (g, out) in zip(jobs, ex.map(lambda j: mono_graph(*j, 4 if tier == "thorough" else 3), jobs)):
            rep.model(out)
            tags = "" if blocks else "wasi"
            for n, w in enumerate(walks(g, rng, 16, 800 if tier == "thorough" else 80, 20)):
                todo[tags].append(dict(id="%s-%s-%d" % (k, m, n), what="mono", kind=k, map=m, mode="", source=k, seed=1, steps=steps(g, w)))
    # Many who want to know and many who wait.
    for k, m, blocks in itertools.product(("create", "processor"), maps, (True, False)):
        g, out = mono_graph(k, m, blocks, 1, 9, 9)
        rep.model(out)
        for n, w in enumerate(toward(g, rng, "notify", 60 if tier == "thorough" else 12) + (toward(g, rng, "block", 12) if blocks else [])):
            todo["" if blocks else "wasi"].append(dict(id="many-%s-%s-%d" % (k, m, n), what="mono", kind=k, map=m, mode="", source=k, seed=1,
                                                       steps=steps(g, w)))
    for tags, scs in todo.items():
        play(rep, "mono", scs, tags)
    rep.bounds["mono"] = "every transition of one mono: 3 outcomes, 2 notifications, 2 blocked callers, transformations %s" % ", ".join(maps)


def runs(rep, tier, what, kinds):
    """Recordings of goroutines sharing a flux or mono."""
    rng = random.Random(SEED * 43 + len(what))
    scs = [dict(id="%s%d" % (what, n), what=what, kind=kinds[n % len(kinds)], seed=rng.randrange(1, 2**31), rounds=1500, steps=[])
           for n in range(64 if tier == "thorough" else 8)]
    b = build("")
    judge_runs(rep, what, b, scs)


def judge_runs(rep, what, b, scs, quiet=False):
    res = feed(b, scs, shards=4, stall=120)
    recs, owner = [], {}
    for s, r in res:
        if "crash" in r:
            rep.violation("%s: %s" % (what, r["crash"][:400]), {"kind": "rx", "scenario": s, "result": r})
            continue
        for x in r["runs"]:
            x = dict(x, id="r%d" % len(recs))
            owner[x["id"]] = (s, x)
            recs.append(x)
    # Many recordings are alike.
    bad = pure.validate(rep, "RxRuns", "RunOk", recs) if recs else []
    rep.traces += len(recs)
    for i in bad[:3]:
        s, x = owner[i]
        rep.violation("%s of several goroutines: not allowed: %s" % (
            x["what"], "; ".join(" ".join(str(v) for v in (e["e"], e["op"], e["k"]) if v != "") for e in x["ev"])[:900]),
            {"kind": "rx", "run": x, "scenario": s})
    if recs:
        rep.samples.append("; ".join(" ".join(str(v) for v in (e["e"], e["op"], e["k"]) if v != "") for e in recs[len(recs) // 2]["ev"])[:400])
    note("%s: %d different recordings, %d not allowed" % (what, len(recs), len(bad)))


def flows(rep, tier):
    rng = random.Random(SEED * 47)
    deep = tier == "thorough"
    recs = []

    def add(fsteps, flux, order=None):
        late = [[k + 1, i + 1] for k, st in enumerate(fsteps) for i, x in enumerate(st["g"]) if x == "late"]
        acts = [act("start")]
        rng.shuffle(late)
        together = rng.random() < .4
        if together:
            by = {}
            for w in late:
                by.setdefault(w[0], []).append(w)
            ks = list(by)
            rng.shuffle(ks)
            acts += [act("settle", which=by[k]) for k in ks]
        else:
            acts += [act("settle", which=[w]) for w in late]
        # The flow is started before, between or after.
        j = rng.choice([0, 0, rng.randrange(len(acts))])
        acts.insert(j, acts.pop(0))
        recs.append(dict(id="f%d" % len(recs), flux=flux, steps=fsteps, acts=acts))

    groups = [[]] + [list(g) for n in (1, 2) for g in itertools.product(("done", "failed", "made", "late"), repeat=n)] + [["late", "same"], ["late", "late", "late"]]
    fins = ["", "end", "err", "ferr", "value", "both"]
    last = dict(items=1, fin="value", g=[])
    for g in groups:
        for h in groups:
            for flux in (False, True):
                for _ in range(3 if deep else 1):
                    add([dict(items=rng.randrange(3), fin="", g=g), dict(items=rng.randrange(3), fin="", g=h), last], flux)
    for fin in fins[1:]:
        for at in range(3):
            for flux in (False, True):
                st = [dict(items=1, fin="", g=rng.choice(groups)) for _ in range(4)]
                st[at]["fin"] = fin
                add(st, flux)
    for _ in range(8000 if deep else 1200):
        st = [dict(items=rng.randrange(3), fin=rng.choices(fins, (12, 1, 1, 1, 1, 1))[0],
                   g=[rng.choice(("done", "failed", "made", "late", "late")) for _ in range(rng.choice([0, 1, 1, 2, 3, 5]))]) for _ in range(rng.randrange(0, 7))]
        add(st, rng.random() < .5)
    for _ in range(200 if deep else 30):
        st = [dict(items=rng.choice([0, 1, 2, 2, 30]), fin="", g=[rng.choice(("done", "failed", "made", "late", "late")) for _ in range(rng.choice([0, 0, 1, 1, 2, 20]))])
              for _ in range(rng.choice([9, 16, 17, 20, 33, 60]))]
        if rng.random() < .5:
            st[-1]["fin"] = rng.choice(fins[1:])
        add(st, rng.random() < .5)
    # Many awaited things ending at the same time.
    for _ in range(200 if deep else 48):
        st = [dict(items=0, fin="", g=["late"] * rng.randrange(2, 9)) for _ in range(8)] + [last]
        add(st, False)
        r = recs[-1]
        by = {k + 1: [[k + 1, i + 1] for i in range(len(x["g"]))] for k, x in enumerate(st[:8])}
        r["acts"] = [act("start")] + [act("settle", which=by[k]) for k in by]
        r["rounds"] = 300
    want = pure.expect(rep, "Flow", "Play", recs, theorems=("Ordered", "OneOutcome"))
    scs = [dict(id=r["id"], what="flow", kind="flux" if r["flux"] else "mono", mode="", map="", source="", isflux=r["flux"], fsteps=r["steps"], rounds=r.get("rounds", 1),
                seed=rng.randrange(4), steps=[{"a": a, "o": o} for a, o in zip(r["acts"], want[r["id"]])]) for r in recs]
    for tags in ("", "wasi"):
        play(rep, "flow", scs, tags, env={"GOMAXPROCS": "8"}, shards=3)
    rep.bounds["flow"] = "all pairs of groups of up to 2 awaited things, random flows of up to 60 steps with groups of up to 20"


def check(prop, tier, rep):
    if prop == "C17":
        fluxes(rep, tier, ["plain", "error"])
        slices(rep, tier)
        runs(rep, tier, "fluxrun", ["plain"])
    if prop == "C18":
        fluxes(rep, tier, ["map", "map2", "maperror"])
        monos(rep, tier, ["ok", "fail"])
        runs(rep, tier, "fluxrun", ["map"])
        runs(rep, tier, "monorun", ["map"])
    if prop == "C19":
        monos(rep, tier, ["none", "ok", "fail"])
        runs(rep, tier, "monorun", ["plain", "map"])
    if prop == "C20":
        flows(rep, tier)


def replay(r):
    if "run" in r:
        bad = pure.validate(Report("", ""), "RxRuns", "RunOk", [r["run"]])
        return ["the recording is not allowed"] if bad else []
    return confirm(build(r.get("tags", "")), r["scenario"])
