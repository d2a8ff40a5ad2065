"""Strong types: every edge of the model replayed, random walks, several underlying types."""
from concurrent.futures import ThreadPoolExecutor

from .. import core

MC = """INIT MInit
NEXT MNext
VIEW View
ACTION_CONSTRAINT EmitEdge
INVARIANT Laws
CHECK_DEADLOCK FALSE
CONSTANTS Emit = TRUE Slots = {1,2%s} SimDepth = 0 Kind = "%s" MaxVal = %d
"""
SIM = """INIT MInit
NEXT WNext
INVARIANTS Laws WEmit
CHECK_DEADLOCK FALSE
CONSTANTS Emit = FALSE Slots = {1,2,3,4} SimDepth = %d Kind = "%s" MaxVal = 5
"""
KINDS = ("int", "small", "wide", "double", "string", "pair", "unique")


def make(ctx):
    """Returns the driver and the kinds it has."""
    try:
        return core.build(ctx, "strong", ["strong_drv.cc"], only=r"/check/"), KINDS
    except core.CheckError as e:
        ctx.log("no move-only underlying type:", str(e)[:600])
        return core.build(ctx, "strong", ["strong_drv.cc"], only=r"/check/", flags=core.ASAN + ["-DNO_UNIQUE"]), KINDS[:-1]


def run(ctx):
    n, d = (2000, 200) if ctx.thorough else (40, 80)
    with ThreadPoolExecutor(6) as ex:
        fb = ex.submit(make, ctx)
        # The kinds differ in what can be done and in the order only.
        fg = {k: ex.submit(core.graph_from, ctx, "StrongMC", MC % (",3" if ctx.thorough else "", k, 5))
              for k in ("double", "pair", "unique")}
        fs = {k: ex.submit(core.simulate, ctx, "StrongMC", SIM % (d, k), n, d, procs=2) for k in ("double", "pair", "unique")}
        exe, kinds = fb.result()
        paths = {k: fg[k].result().cover(ctx.rng) for k in fg}
        sims = {k: fs[k].result() for k in fs}
    for k in kinds:
        j = k if k in paths else "pair"
        core.conformance(ctx, exe, [{"u": k, "ops": p} for p in paths[j] + sims[j]], "StrongTrace",
                         consts='CONSTANTS Slots = {1,2,3,4} Kind = "%s"' % k, what="strong type over " + k)
