from .. import core

MC = """INIT MInit
NEXT MNext
VIEW MView
ACTION_CONSTRAINT MEmit
CHECK_DEADLOCK FALSE
INVARIANTS TypeOK OneLiveItem
CONSTANTS Timers = {%s} Delays = {0,1} MaxStarts = %d MaxNow = %d MaxDepth = 2 MaxInc = 2
 Emit = %s SimDepth = 0
"""
SIM = """INIT SInit
NEXT SNext
INVARIANT SEmit
CHECK_DEADLOCK FALSE
CONSTANTS Timers = {1,2,3} Delays = {0,1,2,5} MaxStarts = 999 MaxNow = 9999 MaxDepth = 3 MaxInc = 99
 Emit = FALSE SimDepth = %d
"""


def wrap(ctx, seq):
    """Units and origin of time; every now and then a start is repeated so often
    that a narrow counter would wrap around (only the last one of them counts)."""
    r = ctx.rng
    out = []
    many = r.random() < 0.08
    for o in seq:
        o = dict(o)
        if o["op"] == "start":
            o["rep"] = 1
            if many and r.random() < 0.3:
                o["rep"] = r.choice((2, 3, 255, 256, 257, 255, 256, 65535, 65536))
                many = o["rep"] < 1000
        out.append(o)
    unit = r.choice((1, 1, 1000, 10**6, 10**9))
    return {"seq": out, "unit": unit, "base": r.choice((0, 0, 7, -2 * unit, -10**15, 10**18))}


def run(ctx):
    from concurrent.futures import ThreadPoolExecutor
    with ThreadPoolExecutor(4) as ex:
        fb = ex.submit(core.build, ctx, "timer", ["timer_drv.cc"],
                       only=r"/(timer|task_runner|threading)/")
        fg = ex.submit(core.graph_from, ctx, "TimerMC", MC % ("1,2", 2, 1, "TRUE"))
        fg1 = ex.submit(core.graph_from, ctx, "TimerMC", MC % ("1", 3 + ctx.thorough, 2, "TRUE"))
        fs = ex.submit(core.simulate, ctx, "TimerMC", SIM % 60, 4000 if ctx.thorough else 400, 60, procs=4)
        exe, g, g1, sims = fb.result(), fg.result(), fg1.result(), fs.result()
    if ctx.thorough:
        core.model_check(ctx, "TimerMC", MC % ("1,2", 3, 2, "FALSE"), timeout=800)
    paths = g.cover(ctx.rng) + g1.cover(ctx.rng)
    ctx.log("edge cover:", len(paths), "scripts of", g.nedges + g1.nedges, "edges;", len(sims), "walks")
    paths = [wrap(ctx, p) for p in paths]
    sims = [wrap(ctx, p) for p in sims]
    core.conformance(ctx, exe, paths, "TimerTrace", consts="CONSTANTS Timers = {1,2} Delays = {0,1}",
                     extra=["2"], what="timer replay of every model edge")
    core.conformance(ctx, exe, sims, "TimerTrace", consts="CONSTANTS Timers = {1,2,3} Delays = {0,1}",
                     extra=["3"], what="timer random walks")
