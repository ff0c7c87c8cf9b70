"""Evaluating a specification on given inputs: TLC as the oracle."""
import concurrent.futures as cf
from vlib import *


def _chunk(module, body, recs, tag, timeout, extra_cfg):
    mod = "---- MODULE MC ----\nEXTENDS %s, TLC, Json\nVARIABLE i\nRecs == ndJsonDeserialize(\"in.ndjson\")\n" % module
    mod += "Init == i = 0\n" + body + "\nSpec == Init /\\ [][Next]_i\n====\n"
    cfg = "SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\n" + extra_cfg
    out, code = tlc(mod, cfg, files=[("in.ndjson", "".join(json.dumps(r) + "\n" for r in recs))], timeout=timeout)
    if code != 0 or "No error has been found" not in out:
        raise Broken("TLC does not evaluate %s (exit %d):\n%s" % (
            module, code, "\n".join(l for l in out.splitlines() if not l.startswith('"@'))[-3000:]))
    return list(printed(out, tag)), stats(out)


def _all(module, body, recs, tag, shards, timeout, extra_cfg):
    shards = max(1, min(shards or CPUS, (len(recs) + 199) // 200))
    parts = [recs[k::shards] for k in range(shards)]
    res, st, tr = [], 0, 0
    with cf.ThreadPoolExecutor(shards) as ex:
        for r, (s, g) in ex.map(lambda p: _chunk(module, body, p, tag, timeout, extra_cfg), parts):
            res += r
            st += s
            tr += g
    return res, st, tr


def expect(rep, module, expr, recs, shards=None, timeout=800, theorems=()):
    """expr is an operator of the specification: its value for every record, by id.
    theorems are operators that have to be TRUE for every record."""
    body = "Next == /\\ i < Len(Recs) /\\ i' = i + 1\n"
    body += "  /\\ PrintT(\"@R\" \\o ToJson([id |-> Recs[i'].id, want |-> %s(Recs[i'])]))\n" % expr
    cfg = ""
    for n, t in enumerate(theorems):
        body += "Thm%d == i = 0 \\/ %s(Recs[i])\n" % (n, t)
        cfg += "INVARIANT Thm%d\n" % n
    res, st, tr = _all(module, body, recs, "@R", shards, timeout, cfg)
    rep.states += st
    rep.transitions += tr
    want = {r["id"]: r["want"] for r in res}
    if len(want) != len(recs):
        raise Broken("%s: %d values for %d inputs" % (module, len(want), len(recs)))
    return want


def validate(rep, module, expr, recs, shards=None, timeout=800, theorems=()):
    """The ids of the recorded observations that the specification does not allow."""
    body = "Next == /\\ i < Len(Recs) /\\ i' = i + 1\n"
    body += "  /\\ (%s(Recs[i']) \\/ PrintT(\"@R\" \\o ToJson([id |-> Recs[i'].id])))\n" % expr
    cfg = ""
    for n, t in enumerate(theorems):
        body += "Thm%d == i = 0 \\/ %s(Recs[i])\n" % (n, t)
        cfg += "INVARIANT Thm%d\n" % n
    res, st, tr = _all(module, body, recs, "@R", shards, timeout, cfg)
    if st < len(recs):
        raise Broken("%s: %d of %d observations were looked at" % (module, st, len(recs)))
    rep.states += st
    rep.transitions += tr
    return [r["id"] for r in res]


def report(rep, kind, binary, results, test, why, env=None):
    """Failures that happen again become violations."""
    bad = [(s, r) for s, r in results if not r.get("ok")]
    for s, r in bad[:3]:
        again = confirm(binary, s, test=test, env=env)
        if again is None:
            note("a failure did not repeat and is not reported:", json.dumps(r)[:300])
            continue
        what = again.get("crash") or again.get("why") or ""
        rep.violation("%s: %s" % (why(s), str(what).strip()[:400]),
                      {"kind": kind, "scenario": s, "result": again, "test": test})
    return bad
