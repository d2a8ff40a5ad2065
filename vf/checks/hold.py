"""What posted callables hold (T12): all short scripts, random long ones."""
from concurrent.futures import ThreadPoolExecutor

from .. import core

MC = """INIT MInit
NEXT MNext
INVARIANTS Sound Stuck
CHECK_DEADLOCK FALSE
CONSTANTS Timers = {%s} MaxK = %d MaxDepth = %d Len0 = 0
"""
ENUM = """INIT MInit
NEXT ENext
INVARIANT EEmit
CHECK_DEADLOCK FALSE
CONSTANTS Timers = {1} MaxK = 0 MaxDepth = 0 Len0 = %d
"""
SIM = """INIT MInit
NEXT RNext
INVARIANT REmit
CHECK_DEADLOCK FALSE
CONSTANTS Timers = {1,2,3} MaxK = 0 MaxDepth = 0 Len0 = %d
"""


def run(ctx):
    n, d, short = (20000, 120, 6) if ctx.thorough else (2000, 90, 5)
    with ThreadPoolExecutor(4) as ex:
        fb = ex.submit(core.build, ctx, "hold", ["hold_drv.cc"], only=r"/(timer|task_runner|threading)/")
        fm = ex.submit(core.model_check, ctx, "HoldMC", MC % (("1,2", 4, 5) if ctx.thorough else ("1,2", 3, 4)),
                       workers=3, what="callables held by a runner and two timers")
        fe = ex.submit(core.tlc, ctx, "HoldMC", ENUM % short)
        fs = ex.submit(core.simulate, ctx, "HoldMC", SIM % d, n, d, procs=2)
        exe, e, sims = fb.result(), fe.result(), fs.result()
        if e.rc != 0:
            raise core.CheckError("enumeration failed:\n" + e.out[-4000:])
        fm.result()
    scripts = core.parse_printed(e.out, "@S")
    ctx.log("all scripts of", short, "calls:", len(scripts))
    if not ctx.thorough:
        scripts = ctx.rng.sample(scripts, 40000)
    core.conformance(ctx, exe, scripts, "HoldTrace", consts="CONSTANT Timers = {1}", extra=["1"], what="short scripts")
    core.conformance(ctx, exe, sims, "HoldTrace", consts="CONSTANT Timers = {1,2,3}", extra=["3"], what="random scripts")
