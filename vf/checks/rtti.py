"""Type tests on errors."""
from .. import core

N = 15


def run(ctx):
    exe = core.build(ctx, "rtti", ["rtti_drv.cc"], only=r"/(status|check|rtti|not_null|files|logger|strings|memory|stl|random|guid)/")
    r = ctx.rng
    scr = []
    for c in range(1, N + 1):
        for how in (0, 4, 5):
            scr.append([["make", 1, c, how], ["test", 1, 0, 0]])
            for t in range(5):
                scr.append([["make", 1, c, how], ["travel", 2, 1, t], ["test", 2, 0, 0]])
    for _ in range(3000 if ctx.thorough else 300):
        ops, have = [], set()
        for _ in range(r.choice((6, 12, 25))):
            k = r.random()
            s = r.randrange(1, 4)
            if k < 0.35 or not have:
                ops.append(["make", s, r.randrange(1, N + 1), r.choice((0, 4, 5))])
                have.add(s)
            elif k < 0.75:
                f = r.choice(sorted(have))
                ops.append(["travel", s, f, r.randrange(5)])
                have.discard(f)
                have.add(s)
            else:
                ops.append(["test", r.choice(sorted(have)), 0, 0])
        ops += [["test", s, 0, 0] for s in sorted(have)]
        scr.append(ops)
    core.conformance(ctx, exe, scr, "RttiTrace", what="error type tests")
