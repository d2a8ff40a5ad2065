"""String formatting (R01) and concatenation (R02)."""
from concurrent.futures import ThreadPoolExecutor

from .. import core

MC = """INIT MInit
NEXT MNext
INVARIANTS Sound MEmit
CHECK_DEADLOCK FALSE
CONSTANTS Emit = TRUE Alphabet = {%s} MaxLen = %d MaxArgs = %d SimDepth = 0
"""
SIM = """INIT SInit
NEXT %s
INVARIANT CEmit
CHECK_DEADLOCK FALSE
CONSTANTS Emit = FALSE Alphabet = {} MaxLen = 0 MaxArgs = 0 SimDepth = %d
"""


def enum(ctx, alphabet, n, a):
    r = core.tlc(ctx, "TextMC", MC % (alphabet, n, a), workers=1)
    if r.rc != 0:
        raise core.CheckError("model check of TextMC failed:\n" + r.out[-4000:])
    ctx.cov["states"] += r.distinct
    ctx.cov["transitions"] += r.generated
    recs = core.parse_printed(r.out, "@S")
    ctx.log("formats over", alphabet, "up to length", n, ":", len(recs))
    return recs


def bundle(calls, n):
    return [calls[x:x + n] for x in range(0, len(calls), n)]


CAT_SIZES = (17, 20, 33, 40, 65, 130, 260)
FMT_SIZES = (100, 150, 254, 300, 600)
FMT_ARGS = (0, 1, 2, 3, 4, 5, 6, 10, 17, 20, 33, 65, 130)


def large(ctx, n, calls):
    """Long formats with many arguments: short ones one after another."""
    out = []
    for x in range(n):
        size, room = FMT_SIZES[x % 5], FMT_ARGS[(x // 5) % 13]
        f, l = [], []
        # Some with places only.
        while x % 4 and len(f) < size - 60:
            c = ctx.rng.choice(calls)
            if len(l) + len(c["l"]) > room:
                break
            f, l = f + list(c["f"]), l + list(c["l"])
        while len(l) < room and len(f) + 2 <= size:
            f, l = f + ["{", "}"], l + [{"t": "i32", "v": str(len(l))}]
        while len(l) not in FMT_ARGS:
            f, l = f + ["{", "}"], l + [{"t": "sv", "v": "more"}]
        if x % 7 == 0 and l:
            l[ctx.rng.randrange(len(l))] = {"t": "str", "v": "HUGE"}
        pad = size - len(f)
        if pad < 0:
            continue
        f = f + [" "] * pad if x % 2 else [" "] * pad + f
        out.append({"k": "fmt", "f": f, "l": l})
    return out


def run_fmt(ctx):
    cfgs = [('"{","}","a"', 6, 3), ('"{","}","%"," "', 4, 2)]
    if ctx.thorough:
        cfgs = [('"{","}","a"', 9, 4), ('"{","}","%"," "', 6, 3)]
    n, d = (1200, 1000) if ctx.thorough else (60, 600)
    only = r"/(check|not_null|strings|stl)/"
    with ThreadPoolExecutor(6) as ex:
        fb = ex.submit(core.build, ctx, "text", ["text_drv.cc"], only=only)
        fn = ex.submit(core.build, ctx, "text_ndebug", ["text_drv.cc"], flags=core.ASAN + ["-DNDEBUG"], only=only)
        fe = [ex.submit(enum, ctx, *c) for c in cfgs]
        fs = ex.submit(core.simulate, ctx, "TextMC", SIM % ("FNext", d), n, d, procs=2)
        exes = [fb.result(), fn.result()]
        recs = [x for f in fe for x in f.result()]
        sims = fs.result()
    good, bad = [], []
    for r in recs:
        for a in r["a"]:
            (good if a["ok"] else bad).append({"k": "fmt", "f": r["f"], "l": a["l"]})
    if len(bad) > 60000:
        bad = ctx.rng.sample(bad, 60000)
    long = [[dict(c, k="fmt") for c in s] for s in sims]
    big = large(ctx, 1000 if ctx.thorough else 200, [c for s in sims for c in s])
    # One place or one argument too many at the very end.
    for c in big[::4]:
        f, l = list(c["f"]), list(c["l"])
        if f[-2:] == [" ", " "]:
            bad.append(dict(c, f=f[:-2] + ["{", "}"]))
        if l and (len(l) < 7 or len(l) == 10):
            bad.append(dict(c, l=(l + l)[:6 if len(l) == 10 else len(l) - 1]))
    # Long formats with something wrong.
    for s in long:
        for c in ctx.rng.sample(s, min(len(s), 6)):
            f, l = list(c["f"]), list(c["l"])
            w = ctx.rng.randrange(5)
            if w == 0 and f:
                f.pop(ctx.rng.randrange(len(f)))
            elif w == 1:
                f.insert(ctx.rng.randrange(len(f) + 1), ctx.rng.choice("{}"))
            elif w == 2:
                # More arguments than places.
                l = l[:5]
                l += [{"t": "sv", "v": ""}] * (6 - len(l))
                f = [x for x in f if x not in "{}"] * 2
                f = f[:44]
            elif w == 3 and len(l) < 6:
                l.insert(ctx.rng.randrange(len(l) + 1), {"t": "sv", "v": ctx.rng.choice(("", "q"))})
            elif l:
                l.pop()
            bad.append({"k": "fmt", "f": f, "l": l})
    legal = bundle(good, 80) + long + bundle(big, 10)
    ctx.log("matching", len(good), "others", len(bad))
    core.conformance(ctx, exes[0], legal + [[c] for c in bad], "TextTrace", consts="CONSTANT Checks = TRUE", what="formats")
    core.conformance(ctx, exes[1], legal, "TextTrace", consts="CONSTANT Checks = FALSE", what="formats (NDEBUG)")


PAIRS = """INIT SInit
NEXT PNext
INVARIANT PEmit
CHECK_DEADLOCK FALSE
CONSTANTS Emit = FALSE Alphabet = {} MaxLen = 2 MaxArgs = 0 SimDepth = 0
"""


def run_cat(ctx):
    n, d = (1500, 1200) if ctx.thorough else (80, 800)
    only = r"/(check|not_null|strings|stl)/"
    with ThreadPoolExecutor(6) as ex:
        fb = ex.submit(core.build, ctx, "text", ["text_drv.cc"], only=only)
        fn = ex.submit(core.build, ctx, "text_ndebug", ["text_drv.cc"], flags=core.ASAN + ["-DNDEBUG"], only=only)
        fp = ex.submit(core.tlc, ctx, "TextMC", PAIRS)
        fs = ex.submit(core.simulate, ctx, "TextMC", SIM % ("CNext", d), n, d, procs=4)
        exes = [fb.result(), fn.result()]
        r = fp.result()
        if r.rc != 0:
            raise core.CheckError("enumeration failed:\n" + r.out[-4000:])
        ctx.cov["states"] += r.distinct
        lists = core.parse_printed(r.out, "@S")
        sims = fs.result()
    ctx.log("lists of up to two arguments:", len(lists))
    calls = bundle([{"k": "cat", "l": l} for l in lists], 100)
    calls += [[{"k": "cat", "l": l} for l in s] for s in sims]
    # Lists of many arguments, and texts beyond 64 KiB.
    args = [a for s in sims for l in s for a in l]
    many = []
    for x in range(600 if ctx.thorough else 100):
        l = ctx.rng.sample(args, CAT_SIZES[x % 7])
        while len(l) > 60 and sum(a["v"] == "LONG" for a in l) > 10:
            l = [{"t": "char", "v": "L"} if a["v"] == "LONG" and ctx.rng.random() < 0.5 else a for a in l]
        if x % 5 == 0:
            l[ctx.rng.randrange(len(l))] = {"t": ctx.rng.choice(("sv", "str", "cstr", "nncstr")), "v": "HUGE"}
        many.append({"k": "cat", "l": l})
    calls += bundle(many, 10)
    for exe, c in zip(exes, ("TRUE", "FALSE")):
        core.conformance(ctx, exe, calls, "TextTrace", consts="CONSTANT Checks = " + c, what="concatenations")


def run(ctx):
    (run_fmt if ctx.pid == "R01" else run_cat)(ctx)
