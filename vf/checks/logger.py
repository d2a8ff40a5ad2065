"""Loggers: every edge of the model replayed, random walks."""
from concurrent.futures import ThreadPoolExecutor

from .. import core

MC = """INIT MInit
NEXT MNext
VIEW MView
ACTION_CONSTRAINT MEmit
CHECK_DEADLOCK FALSE
CONSTANTS Loggers = {%s} Emit = TRUE SimDepth = 0 MsgN = %d FileN = %d LineSet = {%s} VSet = {%s} Debug = TRUE
"""
FINE = """INIT MInit
NEXT FNext
VIEW FView
CHECK_DEADLOCK FALSE
INVARIANT Sound
CONSTANTS Loggers = {1,2} Emit = FALSE SimDepth = 0 MsgN = 1 FileN = 1 LineSet = {1} VSet = {0,1,2,3,4,5} Debug = TRUE
"""
SIM = """INIT MInit
NEXT SNext
INVARIANT SEmit
CHECK_DEADLOCK FALSE
CONSTANTS Loggers = {1,2,3} Emit = FALSE SimDepth = %d MsgN = 8 FileN = 4 LineSet = {1,10,2147483647}
 VSet = {0,1,2,3,4,5} Debug = %s
"""


def huge(ctx, scripts, n):
    """Some of the long messages and names are beyond 64 KiB."""
    out = []
    for s in scripts[:n]:
        long = [x for x, o in enumerate(s) if "long" in (o.get("msg"), o.get("file"))]
        for x in ctx.rng.sample(long, min(3, len(long))):
            s = s[:x] + [{k: "huge" if v == "long" else v for k, v in s[x].items()}] + s[x + 1:]
        out.append(s)
    return out


def run(ctx):
    allv = "0,1,2,3,4,5"
    cfgs = [("1", 1, 1, "1", allv), ("1", 8, 4, "77", "2"), ("1,2", 1, 1, "1", "2,3")]
    if ctx.thorough:
        cfgs += [("1,2", 2, 1, "1,99", allv)]
    n, d = (4000, 600) if ctx.thorough else (200, 300)
    only = r"/(check|not_null|logger|strings|status|rtti)/"
    with ThreadPoolExecutor(8) as ex:
        fb = ex.submit(core.build, ctx, "logger", ["logger_drv.cc"], only=only)
        fn = ex.submit(core.build, ctx, "logger_ndebug", ["logger_drv.cc"], flags=core.ASAN + ["-DNDEBUG"], only=only)
        ff = ex.submit(core.model_check, ctx, "LoggerMC", FINE, workers=2, what="log calls step by step")
        fg = [ex.submit(core.graph_from, ctx, "LoggerMC", MC % c) for c in cfgs]
        fs = [ex.submit(core.simulate, ctx, "LoggerMC", SIM % (d, x), n, d, procs=2) for x in ("TRUE", "FALSE")]
        exes = [fb.result(), fn.result()]
        sims = [f.result() for f in fs]
        ff.result()
        graphs = [f.result() for f in fg]
    paths = []
    for g in graphs:
        p = g.cover(ctx.rng)
        q = g.pairs(ctx.rng, 2)
        ctx.log("edge cover:", len(p), "scripts of", g.nedges, "edges,", "call pairs:", len(q))
        paths += p + q
    for exe, dbg, s in zip(exes, ("TRUE", "FALSE"), sims):
        core.conformance(ctx, exe, (paths if dbg == "TRUE" else []) + s + huge(ctx, s, len(s) // 8), "LoggerTrace",
                         consts="CONSTANTS Loggers = {1,2,3} Debug = " + dbg,
                         what="log calls" + ("" if dbg == "TRUE" else " (NDEBUG)"))
