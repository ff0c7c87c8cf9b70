"""Shared machinery of the checks: TLC, state graphs, walks, Go harnesses."""
import concurrent.futures as cf
import hashlib, json, os, random, re, shutil, subprocess, sys, tempfile, time
from collections import deque

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPECS = os.path.join(ROOT, "specs")
HARNESS = os.path.join(ROOT, "harness")
REPO = os.environ.get("VERIF_REPO", "/repo")
GO = os.path.join(REPO, "go")
CPUS = min(8, os.cpu_count() or 4)
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)
START = time.time()


class Broken(Exception):
    """The check itself cannot run; says nothing about the property."""


_tmp = None


def tmp():
    global _tmp
    if _tmp is None:
        base = os.environ.get("VERIF_TMPDIR", "/tmp")
        _tmp = tempfile.mkdtemp(prefix="verif.", dir=base)
    return _tmp


def cleanup():
    if _tmp and os.path.isdir(_tmp) and not os.environ.get("VERIF_KEEP"):
        shutil.rmtree(_tmp, ignore_errors=True)


def note(*a):
    print("[%6.1fs]" % (time.time() - START), *a, flush=True)


# --------------------------------------------------------------------------
# TLC

def tlc(module, cfg, files=(), workers=1, timeout=600, extra=(), constants_module=None, name=None):
    """Run TLC on `module` (text or file name) with configuration text. Returns (stdout, ok)."""
    d = tempfile.mkdtemp(prefix="tlc.", dir=tmp())
    for f in os.listdir(SPECS):
        if f.endswith(".tla"):
            os.symlink(os.path.join(SPECS, f), os.path.join(d, f))
    for fn, text in files:
        p = os.path.join(d, fn)
        if os.path.islink(p):
            os.unlink(p)
        with open(p, "w") as h:
            h.write(text)
    name = name or "MC"
    with open(os.path.join(d, name + ".tla"), "w") as h:
        h.write(module)
    with open(os.path.join(d, name + ".cfg"), "w") as h:
        h.write(cfg)
    cmd = ["java", "-XX:+UseParallelGC" if workers > 1 else "-XX:+UseSerialGC", "-Xmx6g", "-Xss64m",
           "-cp", tlcjars(), "tlc2.TLC", "-config", name + ".cfg", "-workers", str(workers),
           "-metadir", os.path.join(d, "states"), "-noGenerateSpecTE", *extra, name + ".tla"]
    try:
        p = subprocess.run(cmd, cwd=d, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                           timeout=timeout)
    except subprocess.TimeoutExpired:
        raise Broken("TLC timed out on " + name)
    shutil.rmtree(d, ignore_errors=True)
    return p.stdout, p.returncode


_jars = None


def tlcjars():
    global _jars
    if _jars is None:
        base = "/opt/veriftools/tla"
        jars = [os.path.join(base, f) for f in sorted(os.listdir(base)) if f.endswith(".jar")]
        jars.sort(key=lambda j: 0 if "tla2tools" in j else 1)
        _jars = ":".join(jars)
    return _jars


def tlc_ok(out, code, what):
    if code != 0 or "Model checking completed. No error has been found." not in out:
        tail = "\n".join(l for l in out.splitlines() if not l.startswith('"@'))[-3000:]
        raise Broken("TLC does not accept %s (exit %d):\n%s" % (what, code, tail))


def stats(out):
    m = re.findall(r"([\d,]+) states generated, ([\d,]+) distinct states found", out)
    if not m:
        return 0, 0
    g, dd = m[-1]
    return int(dd.replace(",", "")), int(g.replace(",", ""))


def printed(out, tag):
    """JSON values printed by the specification as "<tag><json>"."""
    pre = '"' + tag
    for line in out.splitlines():
        if line.startswith(pre):
            yield json.loads(json.loads(line)[len(tag):])


# --------------------------------------------------------------------------
# Graphs

class Graph:
    """Edges (source, action, output, target); states are interned."""

    def __init__(self):
        self.names = {}
        self.edges = []          # (src, act, out, dst)
        self.succ = {}
        self.init = None

    def state(self, s):
        k = json.dumps(s, sort_keys=True)
        return self.names.setdefault(k, len(self.names))

    def add(self, s, a, o, t):
        i = len(self.edges)
        self.edges.append((s, a, o, t))
        self.succ.setdefault(s, []).append(i)

    @staticmethod
    def of(items, init=0):
        g = Graph()
        seen = set()
        for e in items:
            s, t = g.state(e["s"]), g.state(e["t"])
            k = (s, json.dumps(e["a"], sort_keys=True), t)
            if k in seen:
                continue
            seen.add(k)
            g.add(s, e["a"], e["o"], t)
        g.init = init
        return g

    def paths(self):
        """Shortest path (edge indexes) from the initial state to each state."""
        best = {self.init: ()}
        parent = {}
        q = deque([self.init])
        while q:
            s = q.popleft()
            for i in self.succ.get(s, ()):
                t = self.edges[i][3]
                if t not in best:
                    best[t] = None
                    parent[t] = i
                    q.append(t)

        def path(s):
            p = []
            while s != self.init:
                i = parent[s]
                p.append(i)
                s = self.edges[i][0]
            return p[::-1]
        return path

    def cover(self, rng, limit, maxwalks=None, skip=lambda a: False):
        """Walks from the initial state that together take every edge."""
        path = self.paths()
        left = {i for i, e in enumerate(self.edges) if not skip(e[1])}
        order = list(left)
        rng.shuffle(order)
        walks = []
        for i in order:
            if i not in left:
                continue
            w = path(self.edges[i][0]) + [i]
            for j in w:
                left.discard(j)
            s = self.edges[i][3]
            while len(w) < limit:
                nxt = [j for j in self.succ.get(s, ()) if not skip(self.edges[j][1])]
                fresh = [j for j in nxt if j in left]
                if not fresh:
                    # Look two steps ahead for an edge that is still to be taken.
                    far = [j for j in nxt if any(k in left for k in self.succ.get(self.edges[j][3], ()))]
                    if not far:
                        break
                    j = rng.choice(far)
                else:
                    j = rng.choice(fresh)
                w.append(j)
                left.discard(j)
                s = self.edges[j][3]
            walks.append(w)
            if maxwalks and len(walks) >= maxwalks:
                break
        return walks, len(left)

    def walk(self, rng, length, weight=lambda a: 1.0, skip=lambda a: False):
        s, w = self.init, []
        while len(w) < length:
            nxt = [j for j in self.succ.get(s, ()) if not skip(self.edges[j][1])]
            if not nxt:
                break
            j = rng.choices(nxt, [weight(self.edges[k][1]) for k in nxt])[0]
            w.append(j)
            s = self.edges[j][3]
        return w


# --------------------------------------------------------------------------
# Go

def goenv(extra=None):
    e = dict(os.environ)
    e.pop("GOWORK", None)
    e.update(HOME=os.environ.get("HOME", "/root"), GOTOOLCHAIN="local", GOPROXY="off",
             GOFLAGS="-buildvcs=false", GOWORK="off")
    e.update(extra or {})
    return e


def overlay(packages, replace=()):
    """packages: {virtual package dir below /repo/go: directory or files in harness}."""
    r = {}
    for pkg, src in packages.items():
        d = os.path.join(HARNESS, src)
        for f in sorted(os.listdir(d)):
            if f.endswith(".go"):
                r[os.path.join(GO, pkg, f)] = os.path.join(d, f)
    for a, b in replace:
        r[os.path.join(GO, a)] = os.path.join(HARNESS, b)
    p = os.path.join(tmp(), "overlay-%s.json" % hashlib.md5(json.dumps(r, sort_keys=True).encode()).hexdigest()[:8])
    with open(p, "w") as h:
        json.dump({"Replace": r}, h)
    return p


def gobuild(pkg, packages, replace=(), tags="", race=False, out=None, env=None, cwd=None, arch=""):
    """arch "386" has the 32-bit int of a wasm guest."""
    if arch:
        env = dict(env or {}, GOARCH=arch, CGO_ENABLED="0")
    out = out or os.path.join(tmp(), pkg.strip("./").replace("/", "_") + ("_" + tags if tags else "") +
                              ("_race" if race else "") + arch + ".test")
    cmd = ["go", "test", "-c", "-vet=off", "-o", out, "-overlay", overlay(packages, replace)]
    if tags:
        cmd += ["-tags", tags]
    if race:
        cmd += ["-race"]
    cmd.append(pkg)
    p = subprocess.run(cmd, cwd=cwd or GO, env=goenv(env), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode != 0 or not os.path.exists(out):
        raise Broken("harness %s does not build:\n%s" % (pkg, p.stdout[-3000:]))
    return out


class Crash(Exception):
    pass


def feed(binary, scenarios, shards=CPUS, stall=60, env=None, test="TestReplay"):
    """Replay scenarios with a harness. Returns [(scenario, result)], results of
    crashes and hangs being {"crash": text}. Scenarios are split over processes."""
    d = tempfile.mkdtemp(prefix="run.", dir=tmp())
    shards = max(1, min(shards, (len(scenarios) + 19) // 20))
    parts = [scenarios[i::shards] for i in range(shards)]
    results = []
    with cf.ThreadPoolExecutor(shards) as ex:
        for r in ex.map(lambda ip: _shard(binary, d, ip[0], ip[1], stall, env, test), enumerate(parts)):
            results += r
    shutil.rmtree(d, ignore_errors=True)
    return results


def _shard(binary, d, n, scs, stall, env, test):
    todo, done, tries = list(scs), [], 0
    while todo:
        tries += 1
        inp = os.path.join(d, "in%d.%d" % (n, tries))
        outp = os.path.join(d, "out%d.%d" % (n, tries))
        logp = os.path.join(d, "log%d.%d" % (n, tries))
        with open(inp, "w") as h:
            for s in todo:
                h.write(json.dumps(s) + "\n")
        open(outp, "w").close()
        with open(logp, "w") as lg:
            p = subprocess.Popen([binary, "-test.run", "^" + test + "$", "-test.timeout", "0"],
                                 env=goenv({"VERIF_IN": inp, "VERIF_OUT": outp, "VERIF_TMP": d, "GOMAXPROCS": "2", "GORACE": "halt_on_error=1", **(env or {})}),
                                 stdout=lg, stderr=subprocess.STDOUT, cwd=d)
            size, last, hung, enough, seen, bad = -1, time.time(), False, False, 0, 0
            while True:
                try:
                    p.wait(0.2)
                    break
                except subprocess.TimeoutExpired:
                    pass
                sz = os.path.getsize(outp)
                if sz != size:
                    size, last = sz, time.time()
                    with open(outp, "rb") as h:
                        h.seek(seen)
                        new = h.read()
                    seen, bad = seen + len(new), bad + new.count(b'"ok":false')
                    enough = bad > 4
                    if enough:
                        p.kill()
                        p.wait()
                        break
                elif time.time() - last > stall:
                    hung = True
                    p.kill()
                    p.wait()
                    break
        started, finished, ended = None, {}, False
        with open(outp) as h:
            for line in h:
                try:
                    r = json.loads(line)
                except ValueError:
                    continue
                if "start" in r:
                    started = r["start"]
                elif "end" in r:
                    ended = True
                else:
                    finished[r["id"]] = r
        with open(logp) as h:
            log = h.read()
        if enough:  # failures can be slow
            return done + [(s, finished[s["id"]]) for s in todo if s["id"] in finished]
        m = re.search(r"^(panic:|fatal error:|SIG|WARNING: DATA RACE)", log, re.M)
        if p.returncode == 3 or (not ended and started is None and not m):
            raise Broken("harness cannot run: " + log[-2000:])
        if started is None and not ended:  # the code crashes before anything is asked of it
            return done + [(todo[0], {"id": todo[0]["id"], "ok": False, "crash": log[m.start():][:3000], "hung": False})]
        if started in finished and not ended and m and not hung:  # a crash after the last step
            finished[started] = {"id": started, "ok": False, "crash": log[m.start():][:3000], "hung": False}
        rest, crashed = [], None
        for s in todo:
            if s["id"] in finished:
                done.append((s, finished[s["id"]]))
            elif s["id"] == started and not ended:
                crashed = s
                text = "no progress for %d s" % stall if hung else log[m.start():][:3000] if m else log[-3000:]
                done.append((s, {"id": s["id"], "ok": False, "crash": text, "hung": hung}))
            else:
                rest.append(s)
        if crashed is None and rest and "crash" not in finished.get(started, {}):
            raise Broken("harness stopped early: " + log[-2000:])
        if tries > 12 or sum(bool(r.get("hung")) for _, r in done) > 1:
            break
        todo = rest
        for f in (inp, outp, logp):
            os.unlink(f)
    return done


def confirm(binary, scenario, times=3, **kw):
    """Replay a failing scenario alone. Returns its result if it fails again."""
    bad = None
    for _ in range(times):
        (_, r), = feed(binary, [scenario], shards=1, **kw)
        if not r.get("ok"):
            bad = r
            break
    return bad


# --------------------------------------------------------------------------
# Reports

class Report:
    def __init__(self, prop, tier, samples_from=None):
        self.prop, self.tier = prop, tier
        self.states = self.transitions = self.traces = 0
        self.samples, self.bounds, self.notes = [], {}, []
        self.violations, self.known = [], []
        self.extra = {}

    def model(self, out):
        s, g = stats(out)
        self.states += s
        self.transitions += g

    def violation(self, what, replay):
        self.violations.append((what, replay))


def known_findings():
    p = os.path.join(ROOT, "known-findings.txt")
    r = []
    if os.path.exists(p):
        for line in open(p):
            m = re.match(r"known: property=(\S+) key=(\S+) (.*)", line)
            if m:
                r.append(m.groups())
    return r
