"""Thread pool: client programs under the controlled scheduler, traces against
PoolTrace.tla."""
from .. import core

CLAUSES = {
    "T01": ["lost", "release"],
    "T02": ["fifo"],
    "T03": ["bound", "conserve"],
    "T04": ["delay", "due", "dueorder"],
    "T05": ["apply"],
    "T06": ["destroy", "destroylive"],
    "T10": ["expire", "keep", "threads"],
}
TSAN = ["-O1", "-fsanitize=thread"]
HUGE = (-1, -2)


def build(ctx, name, drv, only):
    return core.build(ctx, name, ["vsched.cc", drv], flags=TSAN, only=only, link=["-O1"],
                      noinst=("vsched.cc",))


def opts(rng, k=None):
    """Scheduler options: seed, strategy, p_sync, p_acc, p_leap, p_spur, depth, est, lag"""
    st = rng.choice((0, 0, 1, 1, 1))
    return [rng.randrange(1, 1 << 40), st, rng.choice((5, 20, 50, 100)),
            rng.choice((0, 0, 20, 100, 400)), rng.choice((0, 0, 5, 30, 100)),
            rng.choice((0, 0, 20)), rng.choice((1, 2, 3, 5)),
            rng.choice((60, 200, 600, 2000)), 0]


class Gen:
    def __init__(self, rng):
        self.r = rng
        self.bodies = [[]]
        self.ngate = 0

    def body(self, ops):
        self.bodies.append(ops)
        return len(self.bodies) - 1

    def leaf(self):
        r = self.r
        return r.choice((0, 0, self.body([["yield"]] * r.randint(1, 4)),
                         self.body([["sleep", r.randint(1, 4)]])))

    def task(self, depth):
        r = self.r
        if depth == 0 or r.random() < 0.5:
            return self.leaf()
        ops = []
        for _ in range(r.randint(1, 3)):
            ops.append(self.op(depth - 1))
        return self.body(ops)

    def op(self, depth, delays=(1, 2, 3), keep=3):
        r = self.r
        x = r.random()
        if x < 0.55:
            return ["post", self.task(depth), 0]
        if x < 0.75:
            return ["post", self.task(depth), r.choice(delays)]
        if x < 0.9:
            return ["sleep", r.choice((1, 2, keep, keep + 1))]
        return ["yield"]


def program(rng, pid):
    """A random client program aimed at property pid (or any of them)."""
    g = Gen(rng)
    fam = {
        "T01": ("expiry", "mix", "nested", "bulk", "release"),
        "T02": ("fifo", "fifo", "mix", "bulk", "expiry"),
        "T03": ("block", "block", "mix", "bulk", "expblock"),
        "T04": ("delayed", "delayed", "mixdelay", "nodelaypost"),
        "T05": ("apply", "apply", "applyexp", "applymix"),
        "T06": ("destroy", "destroy", "destroyblock", "destroypost"),
        "T10": ("idle", "idle", "expiry", "expblock", "mix"),
    }[pid]
    f = rng.choice(fam)
    mx = rng.choice((1, 2, 2, 3, 4))
    keep = rng.choice((1, 2, 3, 5))
    r = rng
    cl = []
    lag = 0
    nc = r.choice((1, 2, 2, 3))
    if f == "mix":
        cl = [[g.op(2, keep=keep) for _ in range(r.randint(2, 5))] for _ in range(nc)]
    elif f == "nested":
        b = 0
        for _ in range(r.randint(2, 5)):
            b = g.body([["post", b, r.choice((0, 0, 0, 1))] for _ in range(r.randint(1, 2))])
        cl = [[["post", b, 0]] + [["sleep", r.choice((1, keep))], ["post", g.leaf(), 0]] * r.randint(0, 2)
              for _ in range(r.randint(1, 2))]
    elif f == "expiry":
        keep = r.choice((1, 2, 3))
        for _ in range(nc):
            ops = []
            for _ in range(r.randint(2, 5)):
                ops.append(["post", g.leaf(), 0])
                ops.append(["sleep", r.choice((keep, keep, keep + 1, max(1, keep - 1), 2 * keep))])
            cl.append(ops)
    elif f == "bulk":
        mx = r.choice((1, 2, 3, 8))
        n = r.choice((9, 17, 33))
        cl = [[["post", g.leaf() if r.random() < 0.3 else 0, 0] for _ in range(n)] for _ in range(r.randint(1, 2))]
        if r.random() < 0.4:
            cl[0].append(["apply", 0, r.choice((5, 17, 40))])
    elif f == "release":
        cl = [[["post", g.task(1), r.choice((0, 0, 1))] for _ in range(r.randint(1, 4))] +
              [["sleep", 1], ["apply", g.leaf(), r.randint(1, 4)]] for _ in range(nc)]
    elif f == "fifo":
        mx = r.choice((1, 1, 2, 3))
        cl = [[["post", r.choice((0, g.leaf())), 0] for _ in range(r.randint(2, 7))]
              for _ in range(r.choice((1, 1, 2)))]
        for c in cl:
            if r.random() < 0.4:
                c.insert(r.randint(0, len(c)), ["sleep", r.choice((1, keep))])
            if r.random() < 0.3:
                c.insert(r.randint(0, len(c)), ["apply", 0, r.randint(1, 4)])
            if r.random() < 0.3:
                c.insert(r.randint(0, len(c)), ["post", 0, r.randint(1, 2)])
    elif f in ("block", "expblock"):
        mx = r.choice((2, 2, 3, 4))
        if f == "expblock":
            keep = r.choice((1, 2))
        ops = []
        for _ in range(r.randint(0, 3)):
            ops.append(["post", g.leaf(), r.choice((0, 0, 1))])
        if r.random() < 0.6:
            ops.append(["sleep", r.choice((1, keep, keep, keep + 1))])
        nb = r.randint(1, mx - 1)
        blockers = [["post", g.body([["gate", 1]]), r.choice((0, 0, 0, 1))] for _ in range(nb)]
        tail = [["post", g.leaf(), 0] for _ in range(r.randint(0, 3))]
        if r.random() < 0.3:
            tail.append(["apply", 0, r.randint(1, 5)])
        opener = [["post", g.body([["open", 1]]), r.choice((0, 0, 1))]]
        if r.random() < 0.3 and nb < mx:
            # one multi-iteration application whose iterations wait for each other
            blockers = [["apply", g.body([["gate", 1]]), nb]]
            cl = [ops + blockers, [["sleep", r.choice((1, keep))]] + tail + opener]
        elif r.random() < 0.5:
            cl = [ops + blockers + tail + opener]
        else:
            cl = [ops + blockers, tail + opener]
            if r.random() < 0.5:
                cl.append([["post", g.leaf(), 0]])
    elif f in ("delayed", "mixdelay"):
        lag = r.choice((0, 0, 30))
        ds = r.choice(((1, 2, 3), (1, 2), (2, 2, 5), (1, 4, 7)))
        for _ in range(nc):
            ops = []
            for _ in range(r.randint(2, 6)):
                x = r.random()
                if x < 0.65:
                    ops.append(["post", g.leaf() if r.random() < 0.3 else 0, r.choice(ds)])
                elif x < 0.7:
                    ops.append(["post", 0, r.choice(HUGE)])
                elif x < 0.8:
                    ops.append(["post", g.body([["post", 0, r.choice(ds)] for _ in range(r.randint(1, 2))]),
                                r.choice((0,) + tuple(ds))])
                else:
                    ops.append(["sleep", r.choice((1, 2, 3))])
            cl.append(ops)
        cl[0].append(["sleep", r.choice((1, 5, 9))])
        if f == "mixdelay":
            for c in cl:
                c.insert(r.randint(0, len(c)), ["post", g.leaf(), 0])
        mx = r.choice((1, 1, 1, 2, 3))
    elif f == "nodelaypost":
        mx = r.choice((1, 2))
        n = r.choice((6, 12))
        cl = [[["post", 0, r.randint(1, 3)] for _ in range(n)] + [["sleep", r.choice((2, 6))]]]
    elif f in ("apply", "applyexp", "applymix"):
        if f == "applyexp":
            keep = r.choice((1, 2))
        for _ in range(nc):
            ops = []
            for _ in range(r.randint(1, 3)):
                ops.append(["apply", g.leaf(), r.choice((1, 2, 3, 5, 9))])
                if f == "applyexp" or r.random() < 0.3:
                    ops.append(["sleep", r.choice((keep, keep + 1))])
                if f == "applymix":
                    ops.append(["post", g.leaf(), r.choice((0, 1))])
                    if mx > 1 and r.random() < 0.5:
                        mx = max(mx, 3)
                        ops.append(["post", g.body([["apply", g.leaf(), r.randint(1, 3)]]), 0])
            cl.append(ops)
    elif f in ("destroy", "destroyblock", "destroypost"):
        ops = []
        for _ in range(r.randint(1, 5)):
            ops.append(["post", g.task(2) if f != "destroy" else g.leaf(),
                        r.choice((0, 0, 0, 1, 3, -1))])
        if f == "destroyblock":
            ops += [["post", g.body([["gate", 1], ["post", 0, 0], ["post", 0, 2]]), 0]] * r.randint(1, mx)
        if f == "destroypost":
            ops.append(["post", g.body([["yield"], ["post", g.leaf(), r.choice((0, 1, 2))],
                                        ["yield"], ["post", 0, r.choice((0, 1))]]), 0])
        if r.random() < 0.5:
            ops.append(["sleep", r.choice((1, 2, keep))])
        cl = [ops]
        if r.random() < 0.3:
            cl.append([["post", g.leaf(), r.choice((0, 1))] for _ in range(r.randint(1, 2))])
    elif f == "idle":
        ops = []
        for _ in range(r.randint(1, 3)):
            for _ in range(r.randint(1, mx + 1)):
                ops.append(["post", g.leaf(), r.choice((0, 0, 1, keep))])
            if r.random() < 0.3:
                ops.append(["apply", g.leaf(), r.randint(1, mx + 2)])
            ops.append(["sleep", r.choice((1, keep, keep + 1, 3 * keep + 2))])
        cl = [ops]
        if nc > 2:
            cl.append([["sleep", r.randint(1, 3)], ["post", g.leaf(), 0]])
        if r.random() < 0.15:
            keep = 1000000000
    o = opts(rng)
    o[8] = lag
    s = {"max": mx, "keep": keep, "horizon": 60, "bodies": g.bodies, "clients": cl, "o": o}
    vary(r, s, pid)
    return s


def vary(r, s, pid):
    """The length of a tick, the origin of the time function and, now and then, the
    number of posts before the start."""
    tick = r.choice((1, 1000, 1234567, 10**6, 10**6, 10**9))
    warm = 0
    if pid == "T04" and r.random() < 0.06:
        warm = r.choice((256, 256, 65536)) - r.randint(0, 3)
    s.update(tick=tick, warm=warm, points=400000 + 100 * warm,
             fbase=r.choice((0, 5, 5, -3, -20, 10**15, 3 * 10**18)))


def big(ctx, pid, n):
    """Many tasks, or iterations, at once: counters, growth of queues."""
    r = ctx.rng
    out = []
    for _ in range(n):
        m = r.choice((257, 300))
        mx = r.choice((1, 2, 3, 40))
        k = r.choice((0, 1, 2, 3))
        cl = [[["post", 0, 0] for _ in range(m)]]
        bodies = [[], [["gate", 1]], [["open", 1]]]
        if pid in ("T01", "T02", "T04") and len(out) % 2:
            # Everybody is kept busy until the last of them has been posted.
            mx = r.choice((1, 1, 2, 3, 8))
            bodies = [[], [["gate", 31]]]
            d = r.choice((1, 3)) if pid == "T04" else r.choice((0, 0, 2)) if pid == "T01" else 0
            cl = [[["post", 1, 0]] * (0 if d else mx) +
                  [["burst", r.choice((300, 1100, 2100, 5000) if n < 100 else (5000, 20000)), d, r.choice((1, 2, 7)) if d else 1]]]
        elif pid == "T05":
            # n is beyond the range of narrow counters.
            cl = [[["bulk", 0, r.choice((256, 257, 65536, 65537, 70000))]] * r.choice((1, 2))]
        elif k == 1 and mx > 1:
            # The task that lets the others go is the last one of many.
            cl = [[["post", 1, 0]] * (mx - 1) + [["post", 0, 0]] * m + [["post", 2, 0]]]
        elif k == 3:
            mx = r.choice((2, 3, 40))
            cl = [[["apply", 1, r.choice((256, 257))]]]
        elif k == 2:
            # All tasks come due at once.
            cl = [[["post", 0, 1] for _ in range(m)] + [["sleep", 3]]]
        s = {"max": mx, "keep": r.choice((1, 3)), "horizon": 60, "bodies": bodies, "clients": cl,
             "o": opts(r)}
        s["o"][1:6] = [0, r.choice((5, 20)), 0, 0, 0]
        vary(r, s, "")
        s["points"] = 40000000
        out.append(s)
    return out


def annotate(t):
    """A post event gets the values of the time function that the posting thread
    read during the call; if it read none, those the function had meanwhile."""
    f, open_ = 0, {}
    for e in t:
        op = e["op"]
        if op == "tick":
            f = e["f"]
        elif op == "post":
            e["fl"] = e["fh"] = f
            open_[e["k"]] = e
        elif op == "posted" and e["k"] in open_:
            p = open_.pop(e["k"])
            if e["fl"] >= 0:
                p["fl"], p["fh"] = e["fl"], e["fh"]
            else:
                p["fh"] = f
    for p in open_.values():
        p["fh"] = f


def scripts(ctx, pid, nprog, per):
    out = []
    for _ in range(nprog):
        p = program(ctx.rng, pid)
        for _ in range(per):
            q = dict(p)
            lag = p["o"][8]
            q["o"] = opts(ctx.rng)
            q["o"][8] = lag
            out.append(q)
    return out


def run(ctx):
    exe = build(ctx, "pool", "pool_drv.cc", r"/(task_runner|threading|check)/")
    nprog, per = (4000, 25) if ctx.thorough else (500, 12)
    scr = scripts(ctx, ctx.pid, nprog, per) + big(ctx, ctx.pid, 200 if ctx.thorough else 16)
    step = 20000
    enf = "CONSTANT Enf = {%s}" % ",".join('"%s"' % c for c in CLAUSES[ctx.pid])
    for a in range(0, len(scr), step):
        core.conformance(ctx, exe, scr[a:a + step], "PoolTrace", consts=enf, annotate=annotate,
                         what="%s under the controlled scheduler" % ctx.pid)
        if ctx.violations:
            break
