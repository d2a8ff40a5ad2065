"""Status and StatusOr objects: every edge of the model replayed, random walks."""
from concurrent.futures import ThreadPoolExecutor

from .. import core

MC = """INIT MInit
NEXT MNext
VIEW MView
ACTION_CONSTRAINT MEmit
CHECK_DEADLOCK FALSE
INVARIANTS TypeOK GoneChecked
CONSTANTS Slots = {%s} Kinds = {%s} Emit = TRUE SimDepth = 0 Illegal = TRUE
"""
SIM = """INIT MInit
NEXT SNext
INVARIANT SEmit
CHECK_DEADLOCK FALSE
CONSTANTS Slots = {1,2,3,4} Kinds = {"T","P","U","I"} Emit = FALSE SimDepth = %d Illegal = %s
"""


def finish(r, ops, close, nslots):
    """Numbers the values; closes every slot at the end."""
    res, n, alive = [], 0, True
    for o in ops:
        o = dict(o)
        if o["k"] in ("err", "val", "asv", "verr", "ase"):
            n += 1
            o["v"] = n
        res.append(o)
    if close:
        live = set()
        for o in res:
            if o["k"] in ("ok", "err", "val", "verr", "mv", "take"):
                live.add(o["s"])
            elif o["k"] == "del":
                live.discard(o["s"])
        for s in sorted(live, key=lambda _: r.random()):
            for k in (("q", "del") if r.random() < .7 else ("ig", "del")):
                res.append({"k": k, "s": s, "f": 0, "t": "-", "v": 0})
    return res


def run(ctx):
    legal = ctx.pid == "S02"
    with ThreadPoolExecutor(6) as ex:
        fb = ex.submit(core.build, ctx, "status", ["status_drv.cc"], only=r"/(status|check|rtti|not_null)/")
        fn = ex.submit(core.build, ctx, "status_ndebug", ["status_drv.cc"], flags=core.ASAN + ["-DNDEBUG"],
                       only=r"/(status|check|rtti|not_null)/") if legal else None
        fg = [ex.submit(core.graph_from, ctx, "StatusMC", MC % (s, k))
              for s, k in ((("1,2", '"T","P"'), ("1,2", '"U"'), ("1,2", '"I"'), ("1,2,3", '"T"')) if ctx.thorough
                           else (("1,2", '"T","P"'), ("1,2", '"U"'), ("1,2", '"I"')))]
        n, d = (6000, 200) if ctx.thorough else (450, 150)
        fs = ex.submit(core.simulate, ctx, "StatusMC", SIM % (d, "FALSE" if legal else "TRUE"), n, d, procs=3)
        exes = [(fb.result(), "TRUE")] + ([(fn.result(), "FALSE")] if fn else [])
        graphs = [f.result() for f in fg]
        sims = fs.result()
    paths = []
    for g in graphs:
        p = g.cover(ctx.rng)
        ctx.log("edge cover:", len(p), "scripts of", g.nedges, "edges")
        paths += p
        p = g.pairs(ctx.rng, 20 if ctx.thorough else 5)
        ctx.log("call pairs:", len(p))
        paths += p
    for exe, checks in exes:
        sel = paths if checks == "TRUE" else []
        scr = [finish(ctx.rng, p, legal, 4) for p in sel + sims]
        consts = 'CONSTANTS Slots = {1,2,3,4} Id = "%s" Checks = %s' % (ctx.pid, checks)
        core.conformance(ctx, exe, scr, "StatusTrace", consts=consts,
                         what="Status/StatusOr histories" + ("" if checks == "TRUE" else " (NDEBUG)"))
