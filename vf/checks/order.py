"""Order of memory: random programs of threads and tasks without synchronization of
their own, run under the thread sanitizer."""
import json
import subprocess
from concurrent.futures import ThreadPoolExecutor

from .. import core

MC = """INIT MInit
NEXT MNext
VIEW View
INVARIANT NoRace
INVARIANT Clocks
CHECK_DEADLOCK FALSE
CONSTANTS N = %d Vars = {1} Bars = {1} SimDepth = 0 Small = {%s}
"""
SIM = """INIT MInit
NEXT WNext
INVARIANT WEmit
INVARIANT NoRace
CHECK_DEADLOCK FALSE
CONSTANTS N = %d Vars = {1,2,3} Bars = {1,2,3} SimDepth = %d Small = {}
"""
TSAN = ["-O1", "-fsanitize=thread", "-fno-omit-frame-pointer"]


def driver(ctx):
    exe = core.build(ctx, "order", ["order_drv.cc"], flags=TSAN)
    r = subprocess.run([exe], input=json.dumps({"prog": [], "seed": 0}) + "\n", text=True,
                       stdout=subprocess.PIPE, stderr=subprocess.PIPE)
    if '"final"' in r.stdout:
        return exe
    ctx.log("the thread sanitizer does not run here:", r.stderr[-300:])
    ctx.cov.setdefault("skipped", []).append("thread sanitizer")
    return core.build(ctx, "plain", ["order_drv.cc"], flags=["-O1"])


def run(ctx):
    n, reps = (2500, 6) if ctx.thorough else (240, 3)
    with ThreadPoolExecutor(5) as ex:
        fb = ex.submit(driver, ctx)
        f1 = ex.submit(core.simulate, ctx, "OrderMC", SIM % (14, 170), n, 170, procs=2)
        f2 = ex.submit(core.simulate, ctx, "OrderMC", SIM % (30, 400), n // 4, 400, procs=2)
        fm = ex.submit(core.model_check, ctx, "OrderMC",
                       MC % ((3, "1,3") if ctx.thorough else (2, "1,3")), workers=4, timeout=3000)
        exe, progs = fb.result(), f1.result() + f2.result()
        fm.result()
    scripts = [{"prog": p, "seed": ctx.rng.randrange(10**6)} for p in progs for _ in range(reps)]
    core.conformance(ctx, exe, scripts, "OrderTrace", consts="CONSTANTS N = 30 Vars = {1,2,3} Bars = {1,2,3}",
                     what="order of memory")
