"""Polling runner: model edges, random walks and concurrent programs."""
from concurrent.futures import ThreadPoolExecutor

from .. import core
from . import pool

MC = """INIT MInit
NEXT MNext
VIEW MView
%s
CHECK_DEADLOCK FALSE
INVARIANTS Once TakenOnly Ordered NotEarly
PROPERTIES Complete
CONSTANTS Delays = {%s} MaxPosts = %d MaxClk = %d MaxN = %d Conc = %s Emit = %s SimDepth = 0
"""
SIM = """INIT SInit
NEXT SNext
INVARIANT SEmit
CHECK_DEADLOCK FALSE
CONSTANTS Delays = {0,0,1,2,3,5,9} MaxPosts = 999 MaxClk = 9999 MaxN = 1 Conc = FALSE Emit = FALSE SimDepth = %d
"""


def annotate(t):
    """A call gets the values of the time function that it read, or, if none is
    known, those the function had meanwhile."""
    f, open_, poll = 0, {}, None
    for e in t:
        op = e["op"]
        if op == "adv":
            f = e["v"]
        elif op in ("post", "apply", "group", "poll"):
            e["fl"] = e["fh"] = f
            if op == "poll":
                poll = e
                e["ran"] = []
            else:
                open_[e["k"]] = e
        elif op in ("start", "many") and poll and e["k"] not in poll["ran"]:
            poll["ran"].append(e["k"])
        elif op in ("posted", "polled"):
            p = poll if op == "polled" else open_.pop(e["k"], None)
            if op == "polled":
                poll = None
            if p:
                if e["fl"] >= 0:
                    p["fl"], p["fh"] = e["fl"], e["fh"]
                else:
                    p["fh"] = f
    for p in list(open_.values()) + [poll]:
        if p:
            p["fh"] = f


def wrap(ctx, seq, cl=()):
    r = ctx.rng
    unit = r.choice((1, 1000, 1000000, 10**9))
    base = r.choice((0, 0, 0, 5, -3 * unit, -10**15, 3 * 10**18))
    # Every now and then counters are about to exceed 8 or 16 bits.
    warm = r.choice((256, 65536, 256, 128, 32768)) - r.randint(0, 3) if r.random() < 0.1 else 0
    return {"seq": seq, "cl": list(cl), "unit": unit, "base": base, "o": pool.opts(r),
            "warm": warm, "many": 0, "points": 400000}


def concurrent(ctx, n):
    r = ctx.rng
    out = []
    for _ in range(n):
        ds = r.choice(((0, 0, 1, 2), (0, 1, 1, 3), (0, 0, 0, 1), (0, 1, 2, 3, 5, 8), (0, 1, -1, -2)))

        def op():
            x = r.random()
            if x < 0.7:
                return {"op": "post", "d": r.choice(ds)}
            if x < 0.85:
                return {"op": "adv", "d": r.randint(0, 3)}
            return {"op": "yield"}
        seq = []
        for _ in range(r.randint(2, 6)):
            seq += [op() for _ in range(r.randint(0, 4))]
            seq.append({"op": "poll"})
            for _ in range(r.randint(0, 4)):
                seq += [op() for _ in range(r.randint(0, 2))] + [{"op": "end"}]
        if r.random() < 0.2:
            seq += [{"op": "adv", "d": -1}, {"op": "poll"}, {"op": "poll"}]
        cl = []
        for _ in range(r.choice((0, 1, 1, 2, 3))):
            c = [op() for _ in range(r.randint(1, 5))]
            if r.random() < 0.3:
                c.append({"op": "apply", "n": r.randint(1, 5)})
                c += [op() for _ in range(r.randint(0, 2))]
            cl.append([o for o in c if o["op"] != "adv"] if r.random() < 0.5 else c)
        s = wrap(ctx, seq, cl)
        for _ in range(2):
            q = dict(s)
            q["o"] = pool.opts(r)
            out.append(q)
    return out


def many(ctx, n):
    """Synchronous applications with so many iterations that narrow counters
    would wrap around."""
    r = ctx.rng
    out = []
    for _ in range(n):
        k = r.choice((255, 256, 257, 300, 65535, 65536, 65537, 70000))
        seq = [{"op": "yield"}] * 3 + [{"op": "poll"}, {"op": "yield"}, {"op": "poll"}]
        cl = [[{"op": "apply", "n": k}, {"op": "post", "d": 0}]]
        if r.random() < 0.5:
            cl.append([{"op": "post", "d": 0}, {"op": "post", "d": 1}])
        s = wrap(ctx, seq, cl)
        s.update(many=k, points=20000000, warm=0)
        s["o"][1] = 0
        s["o"][2] = 5
        s["o"][3] = 0
        out.append(s)
    return out


def longhist(ctx, n):
    """Many tasks in the queue at once: orders of the heap, ties."""
    r = ctx.rng
    out = []
    for _ in range(n):
        m = r.choice((9, 17, 40, 100))
        dmax = r.choice((1, 3, 10, 100))
        seq = []
        for _ in range(m):
            seq.append({"op": "post", "d": r.randint(0, dmax)})
            if r.random() < 0.2:
                seq.append({"op": "adv", "d": 1})
            if r.random() < 0.1:
                seq.append({"op": "poll"})
        for _ in range(4):
            seq += [{"op": "adv", "d": dmax // 3 + 1}, {"op": "poll"}]
        out.append(wrap(ctx, seq))
    return out


def burst(ctx, n):
    """Thousands of tasks in the queue at once."""
    r = ctx.rng
    out = []
    for _ in range(n):
        m = r.choice((300, 1100, 2100, 5000, 9000) + (40000,) * ctx.thorough)
        d, spread = r.choice(((0, 1), (0, 3), (2, 1), (1, 7)))
        seq = [{"op": "post", "d": r.randint(0, 3)} for _ in range(r.randint(0, 3))]
        for _ in range(r.randint(1, 2)):
            seq.append({"op": "burst", "n": m, "d": d, "spread": spread})
            seq += [{"op": "post", "d": r.randint(0, 3)} for _ in range(r.randint(0, 3))]
        for _ in range(r.randint(2, 10)):
            seq += [{"op": "adv", "d": r.randint(1, 3)}, {"op": "poll"}]
        s = wrap(ctx, seq)
        s.update(points=20000000, warm=0)
        out.append(s)
    return out


def run(ctx):
    with ThreadPoolExecutor(6) as ex:
        fb = ex.submit(pool.build, ctx, "poll", "poll_drv.cc", r"/(task_runner|threading|check)/")
        fg = ex.submit(core.graph_from, ctx, "PollMC",
                       MC % ("ACTION_CONSTRAINT MEmit", "0,1", 3 + ctx.thorough, 2, 1, "FALSE", "TRUE"))
        fs = ex.submit(core.simulate, ctx, "PollMC", SIM % 70, 4000 if ctx.thorough else 400, 70, procs=3)
        fm = ex.submit(core.model_check, ctx, "PollMC",
                       MC % ("", "0,1", 2 + ctx.thorough, 2 - ctx.thorough, 2 - ctx.thorough, "TRUE", "FALSE"), workers=2 + 4 * ctx.thorough)
        exe, g, sims, _ = fb.result(), fg.result(), fs.result(), fm.result()
    scr = [wrap(ctx, p) for p in g.cover(ctx.rng)]
    ctx.log("edge cover:", len(scr), "scripts of", g.nedges, "edges;", len(sims), "walks")
    core.conformance(ctx, exe, scr, "PollTrace", annotate=annotate, what="replay of every model edge")
    core.conformance(ctx, exe, [wrap(ctx, p) for p in sims] + longhist(ctx, 2000 if ctx.thorough else 150),
                     "PollTrace", annotate=annotate, what="random walks and long histories")
    core.conformance(ctx, exe, burst(ctx, 300 if ctx.thorough else 20), "PollTrace", annotate=annotate,
                     what="thousands of tasks")
    core.conformance(ctx, exe, many(ctx, 200 if ctx.thorough else 16), "PollTrace", annotate=annotate,
                     what="synchronous applications with many iterations")
    for _ in range(8 if ctx.thorough else 1):
        core.conformance(ctx, exe, concurrent(ctx, 4000 if ctx.thorough else 900), "PollTrace",
                         annotate=annotate, what="concurrent posting under the controlled scheduler")
