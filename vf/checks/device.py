"""Random devices of threads: every edge replayed, random walks with many threads."""
from concurrent.futures import ThreadPoolExecutor

from .. import core

MC = """INIT MInit
NEXT MNext
VIEW View
ACTION_CONSTRAINT EmitEdge
INVARIANT Own
CHECK_DEADLOCK FALSE
CONSTANTS Emit = TRUE Threads = {%s} Devs = {%s} SimDepth = 0
"""
SIM = """INIT MInit
NEXT WNext
INVARIANT WEmit
CHECK_DEADLOCK FALSE
CONSTANTS Emit = FALSE Threads = {%s} Devs = {} SimDepth = %d
"""


def upto(n):
    return ",".join(str(k + 1) for k in range(n))


def run(ctx):
    k = 4 if ctx.thorough else 3
    n, many = (400, 300) if ctx.thorough else (40, 100)
    with ThreadPoolExecutor(4) as ex:
        fb = ex.submit(core.build, ctx, "device", ["device_drv.cc"], flags=["-O1"], only=r"/(check|random)/")
        fg = ex.submit(core.graph_from, ctx, "DeviceMC", MC % (upto(k), upto(k)))
        fs = ex.submit(core.simulate, ctx, "DeviceMC", SIM % (upto(12), 150), n, 150, procs=2)
        fl = ex.submit(core.simulate, ctx, "DeviceMC", SIM % (upto(many), 6 * many), 4, 6 * many, procs=2)
        exe, g, sims = fb.result(), fg.result(), fs.result() + fl.result()
    paths = g.cover(ctx.rng)
    ctx.log("edge cover:", len(paths), "scripts of", g.nedges, "edges")
    core.conformance(ctx, exe, paths + sims, "DeviceTrace", consts="CONSTANT Threads = {%s}" % upto(max(many, 12)), what="random devices")
