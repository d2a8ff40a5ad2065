"""Never-null and nullable wrappers: every edge of the model replayed, random walks."""
from concurrent.futures import ThreadPoolExecutor

from .. import core

MC = """INIT MInit
NEXT MNext
VIEW MView
ACTION_CONSTRAINT MEmit
CHECK_DEADLOCK FALSE
INVARIANT Sound
CONSTANTS Slots = {1,2} Emit = TRUE MaxId = %d SimDepth = 0 Ws = {%s} Pcs = {%s} Tys = {%s} Illegal = TRUE
"""
SIM = """INIT MInit
NEXT SAll
INVARIANT SEmit
CHECK_DEADLOCK FALSE
CONSTANTS Slots = {1,2,3,4} Emit = FALSE MaxId = 0 SimDepth = %d Ws = {"N","L"} Pcs = {%s} Tys = {%s}
 Illegal = %s
"""

NL = '"N","L"'


def run(ctx):
    cfgs = [(10, NL, '"R"', '"B"'), (12, NL, '"U"', '"B"'), (12, NL, '"S"', '"B"'), (10, '"L"', '"R"', '"D","B"')]
    if ctx.thorough:
        cfgs += [(10, NL, '"R"', '"D","B"'), (12, NL, '"U"', '"D","B"'), (12, NL, '"S"', '"B","cB"')]
    n, d = (6000, 500) if ctx.thorough else (40, 250)
    only = r"/(check|not_null)/"
    with ThreadPoolExecutor(8) as ex:
        fb = ex.submit(core.build, ctx, "null", ["null_drv.cc"], only=only)
        fn = ex.submit(core.build, ctx, "null_ndebug", ["null_drv.cc"], flags=core.ASAN + ["-DNDEBUG"], only=only)
        fg = [ex.submit(core.graph_from, ctx, "NullMC", MC % c) for c in cfgs]
        fs = [[ex.submit(core.simulate, ctx, "NullMC", SIM % (d, p, t, x), n, d, procs=2)
               for p, t in (('"R","U","S"', '"D","B","cB"'), ('"U"', '"B"'), ('"S","R"', '"D","B"'))]
              for x in ("TRUE", "FALSE")]
        exes = [fb.result(), fn.result()]
        illegal, legal = [[x for f in l for x in f.result()] for l in fs]
        graphs = [f.result() for f in fg]
    paths = []
    for g in graphs:
        p = g.cover(ctx.rng)
        ctx.log("edge cover:", len(p), "scripts of", g.nedges, "edges")
        if len(p) > 1500 and not ctx.thorough:
            p = ctx.rng.sample(p, 1500)
        paths += p
        p = g.pairs(ctx.rng, 12 if ctx.thorough else 4)
        ctx.log("call pairs:", len(p))
        paths += p
    c = "CONSTANTS Slots = {1,2,3,4} Checks = "
    core.conformance(ctx, exes[0], paths + illegal + legal, "NullTrace", consts=c + "TRUE", what="null-tracking pointers")
    core.conformance(ctx, exes[1], legal, "NullTrace", consts=c + "FALSE", what="null-tracking pointers (NDEBUG)")
