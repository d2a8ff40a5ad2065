"""Bound callbacks: every edge of the model replayed, random walks."""
from concurrent.futures import ThreadPoolExecutor

from .. import core

FORMS = ["m0", "m2", "mv", "const", "base", "lam", "fun", "ftor", "ph", "swap", "uptr", "mo", "ref", "long", "nest"]
MC = """INIT MInit
NEXT MNext
VIEW MView
ACTION_CONSTRAINT MEmit
CHECK_DEADLOCK FALSE
INVARIANT Sound
CONSTANTS Places = {%s} Cbs = {%s} Emit = TRUE MaxInc = %d SimDepth = 0 FormSet = {%s} Kinds = {%s}
 Vias = {%s} Ints = {"7"} Strs = {"s"} MaxDepth = %d
"""
FINE = """INIT FInit
NEXT FNext
VIEW MView
CHECK_DEADLOCK FALSE
INVARIANT Sound
CONSTANTS Places = {1%s} Cbs = {1,2} Emit = FALSE MaxInc = 2 SimDepth = 0 FormSet = {"m0"} Kinds = {"W","S"}
 Vias = {"raw"} Ints = {"7"} Strs = {"s"} MaxDepth = %d
"""
SIM = """INIT MInit
NEXT SNext
INVARIANT SEmit
CHECK_DEADLOCK FALSE
CONSTANTS Places = {1,2,3} Cbs = {1,2,3,4} Emit = FALSE MaxInc = 0 SimDepth = %d FormSet = {%s} Kinds = {"W","S"}
 Vias = {"raw","func"} Ints = {"0","-2147483648","2147483647"}
 Strs = {"","x","a string that is too long to be stored in place"} MaxDepth = 4
"""


def q(xs):
    return ",".join('"%s"' % x for x in xs)


def build(ctx):
    """Should arguments that can only be moved, or functions that take the shared
    pointer, not compile, the rest is still run."""
    def one(flags):
        return core.build(ctx, "bind", ["bind_drv.cc"], driver_flags=flags, only=r"/(check|not_null|memory)/")
    for k, x in enumerate(([], ["-DNO_MOVE"], ["-DRAW_SHARED"], ["-DNO_MOVE", "-DRAW_SHARED"])):
        try:
            return one(core.ASAN + x), [f for f in FORMS if "-DNO_MOVE" not in x or f not in ("uptr", "mo")]
        except core.CheckError:
            if k == 3:
                raise


def run(ctx):
    # All forms on one callback; copies, moves and nesting with few forms.
    cfgs = [("1", "1", 1, q(FORMS), '"W"', '"raw"', 1), ("1", "1", 1, q(FORMS), '"S"', '"func"', 1),
            ("1", "1,2", 2, '"m2"', '"W"', '"raw"', 2), ("1", "1,2", 2, '"m2"', '"S"', '"func"', 2),
            ("1", "1,2", 1, '"mo"', '"S"', '"raw"', 1)]
    if ctx.thorough:
        cfgs += [("1", "1", 2, q(FORMS), '"W","S"', '"raw","func"', 2),
                 ("1,2", "1,2", 2, '"mv"', '"W","S"', '"raw"', 2),
                 ("1", "1,2", 2, '"mv","ph"', '"W","S"', '"func"', 2)]
    n, d = (8000, 400) if ctx.thorough else (120, 300)
    with ThreadPoolExecutor(8) as ex:
        fb = ex.submit(build, ctx)
        ff = ex.submit(core.model_check, ctx, "BindMC", FINE % ((",2", 6) if ctx.thorough else ("", 5)), workers=2,
                       what="bound callbacks step by step")
        fg = [ex.submit(core.graph_from, ctx, "BindMC", MC % c) for c in cfgs]
        fs = ex.submit(core.simulate, ctx, "BindMC", SIM % (d, q(FORMS)), n, d, procs=4)
        (exe, forms), sims = fb.result(), fs.result()
        ff.result()
        graphs = [f.result() for f in fg]
    if forms != FORMS:
        graphs, sims = [], core.simulate(ctx, "BindMC", SIM % (d, q(forms)), n, d, procs=4)
    paths = []
    for g in graphs:
        p = g.cover(ctx.rng)
        ctx.log("edge cover:", len(p), "scripts of", g.nedges, "edges")
        paths += p
    core.conformance(ctx, exe, paths + sims, "BindTrace",
                     consts="CONSTANTS Places = {1,2,3} Cbs = {1,2,3,4}", what="bound callbacks")
