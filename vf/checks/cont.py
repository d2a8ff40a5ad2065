"""Container helpers: all small containers, random histories; strings; hashes."""
from concurrent.futures import ThreadPoolExecutor

from .. import core

MC = """INIT MInit
NEXT MNext
INVARIANTS Sane MEmit
CHECK_DEADLOCK FALSE
CONSTANTS Emit = TRUE MaxLen = %d MaxKey = %d SimDepth = 0
"""
SIM = """INIT MInit
NEXT WNext
INVARIANT WEmit
CHECK_DEADLOCK FALSE
CONSTANTS Emit = FALSE MaxLen = 0 MaxKey = %d SimDepth = %d
"""
HMC = """INIT Init
NEXT Next
INVARIANT OneChange
CHECK_DEADLOCK FALSE
CONSTANTS N = %d MaxLen = %d
"""


def hashes(ctx):
    r = ctx.rng

    def value(t):
        if t == "i":
            return "i%d" % r.choice((0, 1, 2, 3, -1, 7, 256, r.randrange(-2**31, 2**31)))
        if t == "l":
            return "l%d" % r.choice((0, 1, 1 << 32, -1, 1 << 47, 1 << 62, r.randrange(-2**63, 2**63)))
        if t == "d":
            return "d%s" % r.choice(("0.0", "-0.0", "1.5", "1e300", "-2.25"))
        if t == "s":
            return "s" + "".join(r.choice("ab") for _ in range(r.randrange(4)))
        if t == "b":
            return "b%d" % r.randrange(2)
        return "c" + r.choice("abcXYZ")
    out = [{"many": 1}]
    for k in range(3000 if ctx.thorough else 800):
        n = r.choice((0, 1, 1, 2, 2, 3, 3, 3, 4, 5, 6, 12))
        ts = r.choice("ilsdbc") * n if r.random() < 0.6 else "".join(r.choice("ilsdbc") for _ in range(n))
        a = [value(t) for t in ts]
        b = list(a)
        w = r.random()
        if n and w < 0.6:
            j = r.randrange(n)
            b[j] = value(ts[j])
        elif w < 0.8:
            if len(set(ts)) <= 1:
                r.shuffle(b)
            elif n:
                b = [value(t) for t in ts]
        elif w < 0.9:
            # One with more elements: at the front, in the middle, at the end.
            j, m = r.randrange(n + 1), {1: 1, 2: 1, 3: 1, 4: 1, 5: 1, 6: 6}.get(n, 0)
            t = ts[0] if len(set(ts)) == 1 else r.choice("ilsdbc")
            b[j:j] = [value(t) if r.random() < 0.5 else {"i": "i0", "l": "l0", "d": "d0.0", "b": "b0"}.get(t, value(t))] * m
        elif w < 0.95:
            b = [value(t) for t in ts]
        out.append({"a": a, "b": b, "shape": k})
    return out


def run(ctx):
    n, d = (600, 90) if ctx.thorough else (60, 50)
    sizes = ((4, 2), (5, 1)) if ctx.thorough else ((3, 2), (4, 1))
    with ThreadPoolExecutor(6) as ex:
        fb = ex.submit(core.build, ctx, "cont", ["cont_drv.cc"], only=r"/(check|stl|not_null)/")
        fm = [ex.submit(core.tlc, ctx, "ContMC", MC % x, workers=2, timeout=3000) for x in sizes]
        fh = ex.submit(core.model_check, ctx, "HashMC", HMC % ((4, 3) if ctx.thorough else (3, 4)), workers=2)
        fs = ex.submit(core.simulate, ctx, "ContMC", SIM % (6, d), n, d, procs=1)
        fl = ex.submit(core.simulate, ctx, "ContMC", SIM % (100, 2 * d), n // 4, 2 * d, procs=1)
        small = {}
        for f in fm:
            r = f.result()
            if r.rc != 0:
                raise core.CheckError("model check of ContMC failed:\n" + r.out[-4000:])
            ctx.cov["states"] += r.distinct
            ctx.cov["transitions"] += r.generated
            small.update((repr(x), x) for x in core.parse_printed(r.out, "@S"))
        small = [small[x] for x in sorted(small)]
        ctx.log("small containers with one call", len(small))
        sims = fs.result() + fl.result()
        fh.result()
        exe = fb.result()
    scr = []
    kinds = ("vector", "array", "deque", "own", "list")
    for k, ops in enumerate(small):
        scr.append({"c": kinds[k % 5], "ops": ops, "shape": k // 5})
        if ctx.thorough or k % 3 == 0:
            scr.append({"c": kinds[(k // 3) % 5], "ops": ops, "shape": k})
    for k, ops in enumerate(sims):
        scr.append({"c": kinds[k % 5], "ops": ops, "shape": k})
    # More than a few elements are sorted in other ways.
    for k in range(40):
        m = ctx.rng.choice((15, 16, 17, 20, 33, 64, 100, 200)) if k % 4 else 20
        keys = ctx.rng.choice((3, 10, 1000))
        f = ctx.rng.choice((lambda x: ctx.rng.randrange(keys), lambda x: x % keys, lambda x: (m - x) % keys))
        ops = [{"k": "add", "cmp": "", "p": "", "key": f(x), "tag": 0} for x in range(m)]
        for c in ctx.rng.sample((("stable", "none"), ("stable", "greater"), ("stable", "mod"), ("sort", "none"), ("sort", "greater"),
                                 ("sort", "mod"), ("shuffle", ""), ("heapdown", "less"), ("issorted", "less"), ("stable", "less"),
                                 ("heapup", "greater")), 5):
            ops.append({"k": c[0], "cmp": c[1], "p": "", "key": 0, "tag": 0})
        scr.append({"c": kinds[k % 4], "ops": ops, "shape": k})
    for g in ("mt", "mt64"):
        for form in ("vector", "deque", "temporary"):
            for m in (0, 1, 2, 3, 4):
                scr.append({"spread": m, "total": (1, 1, 2, 6, 24)[m] * 500, "g": g, "form": form})
    for k in range(60):
        scr.append({"resize": [ctx.rng.choice((0, 1, 2, 7, 15, 16, 17, 31, 64, 200)) if k % 2 else ctx.rng.randrange(40)
                               for _ in range(8)]})
    scr.append({"null": 1})
    core.conformance(ctx, exe, scr, "ContTrace", what="container helpers")
    core.conformance(ctx, exe, hashes(ctx), "HashTrace", what="combined hashes")
