"""Barrier: design model plus programs under the controlled scheduler."""
from concurrent.futures import ThreadPoolExecutor

from .. import core
from . import pool

IMPL = """SPECIFICATION Spec
INVARIANTS TypeOK Closed Released
CHECK_DEADLOCK FALSE
CONSTANTS N = %d C = %d Spurious = %s Bug = "none"
"""


def program(r):
    nb = r.choice((1, 1, 1, 2))
    bs = []
    nt = r.choice((2, 3, 3, 4, 5, 8))
    cl = [[] for _ in range(nt)]
    for b in range(1, nb + 1):
        mix = r.choice((("down",), ("downwait",), ("down", "downwait"), ("down", "downwait", "wait"),
                        ("downwait", "wait"), ("down", "wait"), ("down", "wait", "wait")))
        downs = 0
        for c in cl:
            for _ in range(r.choice((1, 1, 1, 2))):
                k = r.choice(mix)
                # A thread that waited may use the barrier again.
                c.append([k, b])
                downs += k != "wait"
            while r.random() < 0.2:
                c.append(["yield"])
            if r.random() < 0.2:
                c.append(["wait", b])
        bs.append(max(1, downs + r.choice((0, 0, 0, 0, 1))))
    pre = 0
    if r.random() < 0.1:
        pre = r.choice((1, 256, 65536, 300, 70000)) - r.choice((0, 0, 1))
    return {"b": bs, "cl": cl, "pre": pre}


def run(ctx):
    with ThreadPoolExecutor(4) as ex:
        fb = ex.submit(pool.build, ctx, "barrier", "barrier_drv.cc", r"/(threading|check)/")
        fm = [ex.submit(core.model_check, ctx, "BarrierImpl", IMPL % (n, c, sp), workers=2,
                        what="%d threads, count %d, spurious %s" % (n, c, sp))
              for n, c, sp in (((4, 2, "TRUE"), (4, 4, "FALSE"), (5, 3, "FALSE")) if not ctx.thorough else
                               ((6, 3, "TRUE"), (6, 4, "FALSE"), (7, 7, "FALSE")))]
        exe = fb.result()
        for f in fm:
            f.result()
    scr = []
    for _ in range(6000 if ctx.thorough else 700):
        p = program(ctx.rng)
        for _ in range(20 if ctx.thorough else 10):
            q = dict(p)
            q["o"] = pool.opts(ctx.rng)
            scr.append(q)
    for a in range(0, len(scr), 20000):
        core.conformance(ctx, exe, scr[a:a + 20000], "BarrierTrace",
                         what="barriers under the controlled scheduler")
