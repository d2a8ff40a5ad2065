"""Preferences: every edge of the model replayed, pairs of calls, random walks."""
from concurrent.futures import ThreadPoolExecutor

from .. import core

MC = """INIT MInit
NEXT MNext
VIEW MView
ACTION_CONSTRAINT MEmit
CHECK_DEADLOCK FALSE
INVARIANT Sound
CONSTANTS Paths = {%s} Emit = TRUE SimDepth = 0 Tys = {%s} Few = TRUE Illegal = TRUE
"""
SIM = """INIT MInit
NEXT SNext
INVARIANT SEmit
CHECK_DEADLOCK FALSE
CONSTANTS Paths = {1,2,3,4,5,6,7,8,9,10,11,12,13,14,15,16,17,18,19,20,21} Emit = FALSE SimDepth = %d
 Tys = {"bool","int","dbl","str","arr","obj"} Few = FALSE Illegal = %s
"""
PATHS = "{1,2,3,4,5,6,7,8,9,10,11,12,13,14,15,16,17,18,19,20,21}"


def run(ctx):
    cfgs = [("1", '"bool","int","dbl","str","arr","obj"'), ("1,4", '"str","int"'), ("4,5", '"obj"')]
    if ctx.thorough:
        cfgs += [("4,5", '"arr","dbl"'), ("1,3,4", '"bool","str"')]
    n, d = (4000, 700) if ctx.thorough else (120, 500)
    only = r"/(check|not_null|preferences|value|status|rtti|strings)/"
    with ThreadPoolExecutor(8) as ex:
        fb = ex.submit(core.build, ctx, "prefs", ["prefs_drv.cc"], only=only)
        fn = ex.submit(core.build, ctx, "prefs_ndebug", ["prefs_drv.cc"], flags=core.ASAN + ["-DNDEBUG"], only=only)
        fg = [ex.submit(core.graph_from, ctx, "PrefsMC", MC % c) for c in cfgs]
        fs = [ex.submit(core.simulate, ctx, "PrefsMC", SIM % (d, x), n, d, procs=3) for x in ("TRUE", "FALSE")]
        exes = [fb.result(), fn.result()]
        illegal, legal = [f.result() for f in fs]
        graphs = [f.result() for f in fg]
    paths = []
    for g in graphs:
        p = g.cover(ctx.rng)
        ctx.log("edge cover:", len(p), "scripts of", g.nedges, "edges")
        if len(p) > 2000 and not ctx.thorough:
            p = ctx.rng.sample(p, 2000)
        q = g.pairs(ctx.rng, 2)
        ctx.log("call pairs:", len(q))
        if len(q) > 1500 and not ctx.thorough:
            q = ctx.rng.sample(q, 1500)
        paths += p + q
    c = "CONSTANTS Paths = %s Checks = " % PATHS
    core.conformance(ctx, exes[0], paths + illegal + legal, "PrefsTrace", consts=c + "TRUE", what="preferences")
    core.conformance(ctx, exes[1], legal, "PrefsTrace", consts=c + "FALSE", what="preferences (NDEBUG)")
