"""Placeholder functions, copies, wrapped pointers: every edge replayed, random walks."""
from concurrent.futures import ThreadPoolExecutor

from .. import core

MC = """INIT MInit
NEXT MNext
VIEW View
ACTION_CONSTRAINT EmitEdge
INVARIANT OneOwner
CHECK_DEADLOCK FALSE
CONSTANTS Emit = TRUE Vars = {%s} SimDepth = 0 MaxMade = %d Nulls = FALSE Area = "%s"
"""
SIM = """INIT MInit
NEXT WNext
INVARIANTS OneOwner WEmit
CHECK_DEADLOCK FALSE
CONSTANTS Emit = FALSE Vars = {1,2,3} SimDepth = %d MaxMade = 1000 Nulls = %s Area = "all"
"""


def run(ctx):
    n, d = (3000, 300) if ctx.thorough else (150, 100)
    only = r"/(check|not_null)/"
    with ThreadPoolExecutor(6) as ex:
        fb = ex.submit(core.build, ctx, "help", ["help_drv.cc"], only=only)
        fn = ex.submit(core.build, ctx, "help_ndebug", ["help_drv.cc"], flags=core.ASAN + ["-DNDEBUG"], only=only)
        fg = [ex.submit(core.graph_from, ctx, "HelpMC", MC % x) for x in (("1,2,3", 0, "fn"), ("1,2", 0, "val"), ("1,2", 4, "obj"))]
        fs = [ex.submit(core.simulate, ctx, "HelpMC", SIM % (d, x), n, d, procs=2) for x in ("TRUE", "FALSE")]
        exe, exn = fb.result(), fn.result()
        paths = [f.result().cover(ctx.rng) for f in fg]
        stops, sims = [f.result() for f in fs]
    legal = [{"sig": s, "shape": k, "ops": p} for k, p in enumerate(paths[0]) for s in (range(7) if len(p) < 400 else (k % 7,))]
    legal += [{"sig": k % 7, "shape": k, "ops": p} for k, p in enumerate(paths[1] + paths[2] + sims)]
    illegal = [{"sig": k % 7, "shape": k, "ops": p} for k, p in enumerate(stops)]
    illegal += [{"sig": 0, "shape": k, "ops": [{"k": "wrap", "x": 1, "y": 1}]} for k in range(3)]
    c = "CONSTANTS Vars = {1,2,3} Checks = "
    core.conformance(ctx, exe, legal + illegal, "HelpTrace", consts=c + "TRUE", what="small helpers")
    core.conformance(ctx, exn, legal, "HelpTrace", consts=c + "FALSE", what="small helpers (NDEBUG)")
