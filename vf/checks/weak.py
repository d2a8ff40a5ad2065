"""Weak pointers: every edge of the model replayed, random walks."""
from concurrent.futures import ThreadPoolExecutor

from .. import core

MC = """INIT MInit
NEXT MNext
VIEW MView
ACTION_CONSTRAINT MEmit
CHECK_DEADLOCK FALSE
INVARIANT Sound
CONSTANTS Addrs = {1} Ptrs = {1,2} Emit = TRUE MaxInc = 2 SimDepth = 0 Tys = {%s}
"""
SIM = """INIT MInit
NEXT SNext
INVARIANT SEmit
CHECK_DEADLOCK FALSE
CONSTANTS Addrs = {1,2,3} Ptrs = {1,2,3,4,5,6} Emit = FALSE MaxInc = 0 SimDepth = %d
 Tys = {"B","cB","D","cD","M","P"}
"""


def run(ctx):
    tys = ('"B","cB"', '"D","B"', '"M","P"') if not ctx.thorough else \
          ('"B","cB"', '"D","B"', '"M","P"', '"D","cD","cB"', '"M","B","cB"', '"D","M","B"')
    n, d = (6000, 400) if ctx.thorough else (240, 300)
    with ThreadPoolExecutor(8) as ex:
        fb = ex.submit(core.build, ctx, "weak", ["weak_drv.cc"], only=r"/(check|not_null|memory)/")
        fg = [ex.submit(core.graph_from, ctx, "WeakMC", MC % t) for t in tys]
        fs = ex.submit(core.simulate, ctx, "WeakMC", SIM % d, n, d, procs=4)
        exe, sims = fb.result(), fs.result()
        graphs = [f.result() for f in fg]
    paths = []
    for g in graphs:
        p = g.cover(ctx.rng)
        ctx.log("edge cover:", len(p), "scripts of", g.nedges, "edges")
        paths += p
    core.conformance(ctx, exe, paths + sims, "WeakTrace",
                     consts="CONSTANTS Addrs = {1,2,3} Ptrs = {1,2,3,4,5,6}", what="weak pointers")
