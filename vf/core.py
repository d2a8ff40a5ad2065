"""Shared machinery: building drivers from /repo, running TLC, covering state
graphs, validating traces, reporting."""
import concurrent.futures as cf
import hashlib
import json
import os
import random
import re
import shutil
import subprocess
import sys
import tempfile
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VF_REPO", "/repo")
SPEC = os.path.join(VERIF, "spec")
HARNESS = os.path.join(VERIF, "harness")
NCPU = os.cpu_count() or 4
JARS = ("/opt/veriftools/tla/tla2tools.jar:"
        "/opt/veriftools/tla/CommunityModules-deps.jar")


JFLAGS = os.environ.get("VF_JFLAGS", "-XX:TieredStopAtLevel=1 -Xshare:auto").split()


class CheckError(Exception):
    """The check itself could not give an answer (exit 2)."""


class Ctx:
    def __init__(self, pid):
        self.pid = pid
        self.tier = os.environ.get("VERIF_TIER", "quick")
        if self.tier not in ("quick", "thorough"):
            self.tier = "quick"
        try:
            self.seed = int(os.environ.get("VERIF_SEED", "1"))
        except ValueError:
            self.seed = 1
        self.thorough = self.tier == "thorough"
        self.work = tempfile.mkdtemp(prefix="vf-%s-" % pid)
        self.t0 = time.time()
        self.rng = random.Random(self.seed * 1000003 + int(
            hashlib.md5(pid.encode()).hexdigest()[:8], 16))
        self.cov = {"states": 0, "transitions": 0,
                    "traces_validated_against_impl": 0, "samples": []}
        self.level = "model_checking"
        self.assumptions = []
        self.violations = []   # list of (summary, replay dict)
        self.known = []        # KNOWN-FINDING texts
        self.log_lines = []

    def log(self, *a):
        line = "[%6.1fs] %s" % (time.time() - self.t0,
                                " ".join(str(x) for x in a))
        self.log_lines.append(line)
        print(line, flush=True)

    def path(self, *p):
        return os.path.join(self.work, *p)

    def cleanup(self):
        shutil.rmtree(self.work, ignore_errors=True)

    def sample(self, x, limit=4):
        if len(self.cov["samples"]) < limit:
            self.cov["samples"].append(short(x))

    def violation(self, summary, replay):
        self.violations.append((summary, replay))


def short(x, depth=8):
    """Evidence stays small: long texts and lists are cut."""
    if isinstance(x, str):
        return x if len(x) <= 200 else "%s... (%d characters)" % (x[:160], len(x))
    if isinstance(x, (list, dict)) and not depth:
        return "..."
    if isinstance(x, list):
        return [short(y, depth - 1) for y in x[:30]] + (["... (%d)" % len(x)] if len(x) > 30 else [])
    if isinstance(x, dict):
        return {short(k): short(x[k], depth - 1) for k in list(x)[:30]}
    return x


# --------------------------------------------------------------------------
# Building

def rst_sources():
    out = []
    for root, _, files in os.walk(os.path.join(REPO, "rst")):
        for f in sorted(files):
            if f.endswith(".cc") and not re.search(r"_(test|tests)\.cc$", f) \
                    and f not in ("main.cc", "rst_tests.cc"):
                p = os.path.join(root, f)
                with open(p, errors="replace") as fh:
                    if "gtest/" in fh.read():
                        continue
                out.append(p)
    return sorted(out)


BASE = ["-std=c++17", "-g1", "-pthread", "-fno-exceptions", "-fno-rtti", "-w",
        "-I", REPO, "-I", HARNESS]
ASAN = ["-O1", "-fsanitize=address,undefined", "-fno-sanitize-recover=undefined",
        "-fno-sanitize=vptr", "-fno-omit-frame-pointer"]


def compile_all(ctx, jobs):
    """jobs: list of (src, obj, flags). Compiles in parallel."""
    def one(job):
        src, obj, flags = job
        cc = "gcc" if src.endswith(".c") else "g++"
        fl = flags if cc == "g++" else [f for f in flags
                                         if f not in ("-std=c++17", "-fno-rtti")]
        r = subprocess.run([cc] + fl + ["-c", src, "-o", obj],
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        return src, r.returncode, r.stdout.decode(errors="replace")
    with cf.ThreadPoolExecutor(NCPU) as ex:
        for src, rc, out in ex.map(one, jobs):
            if rc != 0:
                raise CheckError("compile failed: %s\n%s" % (src, out[-4000:]))


def build(ctx, name, drivers, flags=None, only=None, link=None,
          driver_flags=None, noinst=()):
    """Builds a driver with the rst library; returns the executable path.

    only: regex over rst sources (None: all)."""
    flags = list(ASAN if flags is None else flags)
    d = ctx.path("build-" + name)
    os.makedirs(d, exist_ok=True)
    jobs, objs = [], []
    srcs = [s for s in rst_sources() if only is None or re.search(only, s)]
    for s in srcs:
        o = os.path.join(d, s[len(REPO):].strip("/").replace("/", "_") + ".o")
        jobs.append((s, o, BASE + flags))
        objs.append(o)
    for s in drivers:
        p = os.path.join(HARNESS, s)
        o = os.path.join(d, "drv_" + s.replace("/", "_") + ".o")
        fl = BASE + (flags if driver_flags is None else list(driver_flags))
        if s in noinst:
            fl = BASE + ["-O1"]
        jobs.append((p, o, fl))
        objs.append(o)
    # Longest first: drivers.
    jobs.sort(key=lambda j: not j[0].startswith(HARNESS))
    try:
        compile_all(ctx, jobs)
    except CheckError as e:
        if "-DNDEBUG" not in flags:
            raise
        # The builds of the repository have assertions.
        ctx.log("the build without assertions fails, skipped:", str(e)[:600])
        ctx.cov.setdefault("skipped", []).append(name + ": does not compile with NDEBUG")
        return None
    exe = os.path.join(d, name)
    lf = flags if link is None else list(link)
    r = subprocess.run(["g++"] + BASE + lf + objs + ["-o", exe, "-ldl"],
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if r.returncode != 0:
        if only is not None:
            # The sources picked may have come to need others.
            return build(ctx, name, drivers, flags, None, link, driver_flags, noinst)
        raise CheckError("link failed:\n" + r.stdout.decode(errors="replace")[-4000:])
    ctx.log("built", name)
    return exe


# --------------------------------------------------------------------------
# TLC

class TLC:
    def __init__(self, rc, out):
        self.rc = rc
        self.out = out
        m = None
        for m in re.finditer(r"(\d+) states generated, (\d+) distinct states found", out):
            pass
        self.generated = int(m.group(1)) if m else 0
        self.distinct = int(m.group(2)) if m else 0
        if not m:
            for m in re.finditer(r"generated (\d+) states|(\d+) states checked", out):
                self.generated = int(m.group(1) or m.group(2))


def tlc(ctx, module, cfg, env=None, workers=1, args=(), timeout=600, xmx="3g",
        javaprops=(), tag=""):
    """cfg: text of the configuration. Returns TLC result (rc 0: no error)."""
    meta = tempfile.mkdtemp(prefix="tlc-", dir=ctx.work)
    cfgp = os.path.join(meta, "M.cfg")
    with open(cfgp, "w") as f:
        f.write(cfg)
    e = dict(os.environ)
    e.pop("JAVA_TOOL_OPTIONS", None)
    if env:
        e.update({k: str(v) for k, v in env.items()})
    gc = ["-XX:+UseSerialGC"] if workers == 1 else ["-XX:+UseParallelGC"]
    cmd = ["java"] + gc + JFLAGS + ["-Xmx" + xmx, "-Xss16m",
           "-Djava.io.tmpdir=" + meta] + list(javaprops) + \
          ["-cp", JARS, "tlc2.TLC", "-config", cfgp, "-metadir", meta,
           "-workers", str(workers), "-noGenerateSpecTE",
           os.path.join(SPEC, module + ".tla")] + list(args)
    try:
        r = subprocess.run(cmd, cwd=meta, env=e, timeout=timeout,
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        rc, out = r.returncode, r.stdout.decode(errors="replace")
    except subprocess.TimeoutExpired as ex:
        rc, out = -9, (ex.stdout or b"").decode(errors="replace")
    shutil.rmtree(meta, ignore_errors=True)
    return TLC(rc, out)


def model_check(ctx, module, cfg, workers=None, timeout=600, env=None, args=(), what=""):
    """Exhaustive design-level check. A failure is an error of the check (the
    model is ours), not a violation by /repo."""
    r = tlc(ctx, module, cfg, workers=workers or NCPU, timeout=timeout, env=env, args=args)
    if r.rc != 0:
        raise CheckError("model check of %s failed (rc %d):\n%s" % (module, r.rc, r.out[-6000:]))
    ctx.cov["states"] += r.distinct
    ctx.cov["transitions"] += r.generated
    ctx.log("TLC", module, what, "distinct", r.distinct, "generated", r.generated)
    return r


def parse_printed(out, tag):
    """Lines printed by PrintT("<tag>" \\o ToJson(x))."""
    res = []
    pre = '"' + tag
    for line in out.splitlines():
        if line.startswith(pre):
            s = line[len(pre):]
            if s.endswith('"'):
                s = s[:-1]
            s = s.replace('\\"', '"').replace("\\\\", "\\")
            res.append(json.loads(s))
    return res


class Graph:
    """Edges emitted by an ACTION_CONSTRAINT: {"s":state,"t":state,"op":op}."""

    def __init__(self, recs, inits=None):
        self.ids = {}
        self.adj = []
        self.nedges = 0
        self.inits = []
        for rec in recs:
            s = self.node(rec["s"])
            t = self.node(rec["t"])
            if rec.get("i"):
                if s not in self.inits:
                    self.inits.append(s)
            self.adj[s].append((rec["op"], t))
            self.nedges += 1
        # drop duplicate edges
        self.nedges = 0
        for u, es in enumerate(self.adj):
            seen, keep = set(), []
            for op, v in es:
                k = (json.dumps(op, sort_keys=True), v)
                if k not in seen:
                    seen.add(k)
                    keep.append((op, v))
            self.adj[u] = keep
            self.nedges += len(keep)

    def node(self, st):
        k = st if isinstance(st, str) else json.dumps(st, sort_keys=True)
        if k not in self.ids:
            self.ids[k] = len(self.adj)
            self.adj.append([])
        return self.ids[k]

    def cover(self, rng, maxlen=60, maxpaths=None):
        """Paths from an initial node that together cover every edge reachable."""
        from collections import deque
        n = len(self.adj)
        parent = [None] * n
        order = []
        dq = deque()
        root = [-1] * n
        for i in self.inits:
            root[i] = i
            dq.append(i)
        while dq:
            u = dq.popleft()
            order.append(u)
            for k, (op, v) in enumerate(self.adj[u]):
                if root[v] < 0:
                    root[v] = root[u]
                    parent[v] = (u, k)
                    dq.append(v)
        todo = [list(range(len(e))) for e in self.adj]
        for t in todo:
            rng.shuffle(t)
        left = sum(len(todo[u]) for u in order)
        paths = []

        def prefix(u):
            p = []
            while parent[u] is not None:
                w, k = parent[u]
                p.append((w, k))
                u = w
            p.reverse()
            return p
        covered = [set() for _ in range(n)]
        for u0 in reversed(order):
            while True:
                todo[u0] = [k for k in todo[u0] if k not in covered[u0]]
                if not todo[u0]:
                    break
                p = prefix(u0)
                for (w, k) in p:
                    covered[w].add(k)
                ops = [self.adj[w][k][0] for (w, k) in p]
                u = u0
                while len(ops) < maxlen:
                    todo[u] = [k for k in todo[u] if k not in covered[u]]
                    if not todo[u]:
                        break
                    k = todo[u].pop()
                    covered[u].add(k)
                    op, v = self.adj[u][k]
                    ops.append(op)
                    u = v
                paths.append(ops)
                if maxpaths and len(paths) >= maxpaths:
                    return paths
        return paths

    def pairs(self, rng, per=2, last=True):
        """Short scripts with every pair of kinds of consecutive calls, the
        second one ending the run (last) or any; a model state may stand for
        several states of the code, told apart only by how it was reached."""
        from collections import deque
        prefix = {i: [] for i in self.inits}
        dq = deque(self.inits)
        order = []
        while dq:
            u = dq.popleft()
            order.append(u)
            for op, v in self.adj[u]:
                if v not in prefix:
                    prefix[v] = prefix[u] + [op]
                    dq.append(v)
        sigs = {}

        def sig(op):
            k = id(op)
            if k not in sigs:
                sigs[k] = (tuple(sorted((a, b) for a, b in op.items() if isinstance(b, str))), op)
            return sigs[k][0]
        ends = {}
        for u in order:
            d = {}
            for op, v in self.adj[u]:
                if not last or not self.adj[v]:
                    d.setdefault(sig(op), []).append(op)
            ends[u] = d
        got = {}
        for u in order:
            for op, v in self.adj[u]:
                if v not in ends or not ends[v]:
                    continue
                a = sig(op)
                for b, ops in ends[v].items():
                    k = (a, b)
                    q = got.setdefault(k, [0, []])
                    q[0] += 1
                    if len(q[1]) < per:
                        q[1].append((u, op, rng.choice(ops)))
                    else:
                        j = rng.randrange(q[0])
                        if j < per:
                            q[1][j] = (u, op, rng.choice(ops))
        return [prefix[u] + [a, b] for n, l in got.values() for (u, a, b) in l]


def graph_from(ctx, module, cfg, workers=1, timeout=600, tag="@E", env=None):
    r = tlc(ctx, module, cfg, workers=workers, timeout=timeout, env=env)
    if r.rc != 0:
        raise CheckError("state graph of %s failed (rc %d):\n%s" % (module, r.rc, r.out[-6000:]))
    recs = parse_printed(r.out, tag)
    ctx.cov["states"] += r.distinct
    ctx.cov["transitions"] += r.generated
    g = Graph(recs)
    ctx.log("graph", module, "distinct", r.distinct, "generated", r.generated,
            "edges", g.nedges)
    return g


def simulate(ctx, module, cfg, num, depth, procs=4, timeout=300, tag="@S", env=None,
             seed=None):
    """Random behaviours: the specification prints "@S" + JSON of its op history
    when a behaviour ends. Returns the list of histories."""
    per = max(1, num // procs)
    base = (ctx.seed if seed is None else seed)

    def one(k):
        return tlc(ctx, module, cfg, workers=1, timeout=timeout, env=env,
                   args=["-simulate", "num=%d" % per, "-depth", str(depth),
                         "-seed", str(base * 7919 + k * 104729 + 17)])
    res, seen = [], set()
    with cf.ThreadPoolExecutor(procs) as ex:
        for r in ex.map(one, range(procs)):
            if r.rc != 0:
                raise CheckError("simulation of %s failed (rc %d):\n%s" % (module, r.rc, r.out[-6000:]))
            for line in parse_printed(r.out, tag):
                k = json.dumps(line, sort_keys=True)
                if k not in seen:
                    seen.add(k)
                    res.append(line)
            ctx.cov["transitions"] += r.generated
    ctx.log("simulated", module, "behaviours", len(res))
    return res


# --------------------------------------------------------------------------
# Trace validation

def validate(ctx, module, traces, consts="", extra_cfg="", procs=None, timeout=600,
             deadlock=False, javaprops=(), constraint="TRec", init="TInit", nxt="TNext",
             post="TPost", env=None, count=True, xmx="3g"):
    """Validates traces (list of lists of events) against the trace
    specification. Returns {index: matched prefix length} for rejected ones."""
    if not traces:
        return {}
    n = len(traces)
    # JVM start-up dominates short runs: one process per 40000 events.
    procs = procs or max(1, min(4, sum(len(t) for t in traces) // 40000))
    procs = max(1, min(procs, n))
    # balance by size
    sizes = sorted(range(n), key=lambda k: -len(traces[k]))
    chunks = [[] for _ in range(procs)]
    load = [0] * procs
    for k in sizes:
        j = load.index(min(load))
        chunks[j].append(k)
        load[j] += len(traces[k]) + 3
    cfg = "INIT %s\nNEXT %s\nCONSTRAINT %s\nPOSTCONDITION %s\nCHECK_DEADLOCK FALSE\n%s\n%s\n" % (
        init, nxt, constraint, post, consts, extra_cfg)

    def once(ks):
        fn = ctx.path("tr-%s-%d.json" % (module, random.getrandbits(60)))
        with open(fn, "w") as f:
            json.dump([traces[k] for k in ks], f)
        e = {"TRACES": fn}
        if env:
            e.update(env)
        r = tlc(ctx, module, cfg, env=e, workers=1, timeout=timeout, javaprops=javaprops, xmx=xmx)
        os.unlink(fn)
        return r

    def one(j):
        """Returns ({trace: matched}, distinct, generated)."""
        ks, out, dist, gen = list(chunks[j]), {}, 0, 0
        for _ in range(12):
            if not ks:
                break
            r = once(ks)
            dist += r.distinct
            gen += r.generated
            rej = re.findall(r'<<"REJECT", (\d+), (\d+)>>', r.out)
            if "POSTDONE" in r.out and ("No error has been found" in r.out or rej):
                for t, k in rej:
                    out[ks[int(t) - 1]] = int(k)
                return out, dist, gen
            # An event that the specification cannot even evaluate.
            t = re.findall(r"^/\\ tid = (\d+)$", r.out, re.M)
            i = re.findall(r"^/\\ i = (\d+)$", r.out, re.M)
            if r.rc == -9 or not t or not i or "exception" not in r.out:
                raise CheckError("trace validation of %s failed (rc %d):\n%s" % (module, r.rc, r.out[-6000:]))
            k = ks.pop(int(t[-1]) - 1)
            out[k] = int(i[-1])
            ctx.log("specification", module, "cannot evaluate event", out[k], "of a trace:",
                    json.dumps(traces[k][out[k]:out[k] + 1])[:300])
        return out, dist, gen
    rejected = {}
    with cf.ThreadPoolExecutor(NCPU) as ex:
        for out, dist, gen in ex.map(one, range(procs)):
            ctx.cov["states"] += dist
            ctx.cov["transitions"] += gen
            rejected.update(out)
    if count:
        ctx.cov["traces_validated_against_impl"] += n
    ctx.log("validated", n, "traces (%d events)" % sum(len(t) for t in traces),
            "with", module, "rejected", len(rejected))
    return rejected


# --------------------------------------------------------------------------
# Script-driven drivers

SAN_ENV = {
    "ASAN_OPTIONS": "exitcode=77:detect_leaks=0:abort_on_error=0:handle_abort=0:"
                    "allocator_may_return_null=1:detect_stack_use_after_return=0:symbolize=0",
    "UBSAN_OPTIONS": "halt_on_error=1:exitcode=77:print_stacktrace=0:symbolize=0",
    "LC_ALL": "C",
}


def run_scripts(ctx, exe, scripts, extra=(), procs=None, timeout=300, env=None, tag=""):
    """Runs scripts (lists of JSON-able ops) through a driver that reads one
    script per line on stdin and writes one trace (JSON array) per line."""
    n = len(scripts)
    if n == 0:
        return []
    procs = max(1, min(procs or NCPU, n))
    res = [None] * n
    e = dict(os.environ)
    e.update(SAN_ENV)
    if env:
        e.update(env)

    def one(j):
        idx = list(range(j, n, procs))
        inp = "\n".join(scripts[k] if isinstance(scripts[k], str)
                        else json.dumps(scripts[k], separators=(",", ":")) for k in idx) + "\n"
        p = subprocess.run([exe] + list(extra), input=inp.encode(), env=e, cwd=ctx.work,
                           stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout)
        lines = p.stdout.decode(errors="replace").splitlines()
        if p.returncode != 0 or len(lines) != len(idx):
            raise CheckError("driver failed rc=%d, %d of %d traces: %s" % (
                p.returncode, len(lines), len(idx), p.stderr.decode(errors="replace")[-2000:]))
        return idx, lines, p.stderr.decode(errors="replace")
    with cf.ThreadPoolExecutor(procs) as ex:
        for idx, lines, err in ex.map(one, range(procs)):
            for k, l in zip(idx, lines):
                try:
                    res[k] = json.loads(l)
                except ValueError:
                    raise CheckError("bad trace line: %r" % l[:500])
    return res


def dedupe(traces):
    seen, out, idx = set(), [], []
    for k, t in enumerate(traces):
        h = hashlib.md5(json.dumps(t, sort_keys=True).encode()).digest()
        if h not in seen:
            seen.add(h)
            out.append(t)
            idx.append(k)
    return out, idx


def conformance(ctx, exe, scripts, module, consts="", extra=(), what="", nsample=2,
                max_report=5, env=None, annotate=None, **kw):
    """scripts -> driver -> traces -> TLC; reports confirmed rejections."""
    if exe is None:
        return 0
    traces = run_scripts(ctx, exe, scripts, extra=extra, env=env)
    if annotate:
        for t in traces:
            annotate(t)
    uniq, idx = dedupe(traces)
    rej = validate(ctx, module, uniq, consts=consts, env=env, **kw)
    for t in uniq[:nsample]:
        ctx.sample({"what": what or module, "trace": t[:12]})
    if not rej:
        return 0
    # Confirm by running again.
    def report(k, trace, m, note=""):
        bad = trace[m] if m < len(trace) else None
        ctx.violation("%s: specification %s rejects event %d: %s%s" % (
            what, module, m, json.dumps(bad), note),
            {"module": module, "script": scripts[idx[k]], "trace": trace, "matched": m,
             "rejected_event": bad})
    again = sorted(rej)[:max_report * 3]
    scr = [scripts[idx[k]] for k in again]
    tr2 = run_scripts(ctx, exe, scr, extra=extra, env=env)
    if annotate:
        for t in tr2:
            annotate(t)
    rej2 = validate(ctx, module, tr2, consts=consts, count=False, env=env, **kw)
    n = 0
    for j, k in enumerate(again):
        if j in rej2:
            n += 1
            if n <= max_report:
                report(k, tr2[j], rej2[j])
    if not n:
        # The recorded execution counts all the same, unless it only took long.
        for k in sorted(rej):
            t, m = uniq[k], rej[k]
            if m < len(t) and t[m].get("op") == "hang":
                ctx.log("a slow run did not repeat")
                continue
            n += 1
            if n <= max_report:
                report(k, t, m, " (a second run went differently)")
    return n
