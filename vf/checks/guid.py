"""GUIDs: strings around the valid form out of the model; generated ones."""
from concurrent.futures import ThreadPoolExecutor

from .. import core

MC = """INIT MInit
NEXT MNext
VIEW View
INVARIANTS Sound MEmit
CHECK_DEADLOCK FALSE
CONSTANTS Depth = %d Bases = {%s} Few = %s
"""


def enum(ctx, cfg):
    r = core.tlc(ctx, "GuidMC", MC % cfg, workers=1, timeout=800)
    if r.rc != 0:
        raise core.CheckError("model check of GuidMC failed:\n" + r.out[-4000:])
    ctx.cov["states"] += r.distinct
    ctx.cov["transitions"] += r.generated
    res = core.parse_printed(r.out, "@S")
    ctx.log("strings", len(res))
    return res


def run(ctx):
    r = ctx.rng
    cfgs = [(1, "1,2,3", "FALSE")] + ([(2, "1", "TRUE"), (2, "3", "TRUE")] if ctx.thorough else [])
    n, m = (60, 4000) if ctx.thorough else (8, 1200)
    with ThreadPoolExecutor(4) as ex:
        fb = ex.submit(core.build, ctx, "guid", ["guid_drv.cc"], only=r"/(check|guid|random|type)/")
        fe = [ex.submit(enum, ctx, c) for c in cfgs]
        exe = fb.result()
        strings = [x for f in fe for x in f.result()]
    calls = [{"k": "valid", "c": c} for c in strings]
    # Some with several errors.
    for _ in range(20000 if ctx.thorough else 1500):
        c = list(r.choice(strings))
        for _ in range(r.randrange(1, 4)):
            if c:
                c[r.randrange(len(c))] = r.choice("-0123456789abcdefABCDEFgGx")
        calls.append({"k": "valid", "c": c})
    scripts = [calls[x:x + 200] for x in range(0, len(calls), 200)]
    words = [0, 0xffffffff, 1, 0x80000000, 0xf, 0xffff, 0x10000, 0xffff0000, 0xf000, 0x4000, 0x12345678]
    edge = [{"k": "bits", "b": [r.choice(words) for _ in range(8)]} for _ in range(2000 if ctx.thorough else 300)]
    edge += [{"k": "bits", "b": [w]} for w in words]
    scripts += [edge[x:x + 100] for x in range(0, len(edge), 100)]
    for _ in range(n):
        scripts.append([{"k": "gen", "n": m // 3}, {"k": "threads", "n": r.randrange(2, 12)}, {"k": "gen", "n": m // 3},
                        {"k": "forks", "n": r.randrange(1, 5)}, {"k": "gen", "n": m // 3}, {"k": "all"}])
    core.conformance(ctx, exe, scripts, "GuidTrace", what="GUIDs")
