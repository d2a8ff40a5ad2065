"""Propagation macros: programs of wrapped calls."""
import itertools
from concurrent.futures import ThreadPoolExecutor

from .. import core

S_KINDS = ("try", "trybare", "catchS")
T_KINDS = ("assign", "unwrap", "unwrapbare", "create", "createT", "catchT", "catchvar")


class Gen:
    def __init__(self, r, straight, perr):
        self.r, self.n, self.straight, self.perr = r, 0, straight, perr

    def leaf(self):
        self.n += 1
        return {"id": self.n, "err": int(self.r.random() < self.perr)}

    def fn(self, depth):
        r = self.r
        self.n += 1
        f = {"id": self.n}
        if self.straight and r.random() < 0.2:
            f["line"] = 1
            f["body"] = [self.callee(depth) for _ in range(8)]
        else:
            f["body"] = [{"m": r.choice(S_KINDS + T_KINDS), "c": self.callee(depth)}
                         for _ in range(r.choice((0, 1, 2, 3, 5, 8)))]
        return f

    def callee(self, depth):
        if depth > 0 and self.r.random() < 0.3:
            return self.fn(depth - 1)
        return self.leaf()


def run(ctx):
    only = r"/(status|check|rtti|not_null)/"

    def make(name, flags):
        # Macros that cannot be used in unusual places are used elsewhere.
        for k, x in enumerate(([], ["-DNO_BARE"], ["-DNO_LINE"], ["-DNO_BARE", "-DNO_LINE"])):
            try:
                exe = core.build(ctx, name, ["macros_drv.cc"], flags=flags + x, only=only)
                if exe is not None or k == 3:
                    return exe, x
            except core.CheckError:
                if k == 3:
                    raise
    with ThreadPoolExecutor(2) as ex:
        fb = ex.submit(make, "macros", core.ASAN)
        fn = ex.submit(make, "macros_ndebug", core.ASAN + ["-DNDEBUG"])
        (exe, x), (exen, _) = fb.result(), fn.result()
    exes = [(exe, "TRUE"), (exen, "FALSE")]
    straight = "-DNO_LINE" not in x
    scr = []
    # Every sequence of up to two (three) macros, with every outcome, in both kinds of function.
    for n in range(3 if not ctx.thorough else 4):
        for ks in itertools.product(S_KINDS + T_KINDS, repeat=n):
            for es in itertools.product((0, 1), repeat=n):
                for t in "ST":
                    scr.append({"t": t, "drop": 0, "f": {"id": 99, "body": [
                        {"m": k, "c": {"id": j + 1, "err": e}} for j, (k, e) in enumerate(zip(ks, es))]}})
    # Straight-line functions that fail at each place.
    for k in range(9 if straight else 0):
        for t in "ST":
            for i in (98, 99):
                scr.append({"t": t, "drop": 0, "f": {"id": i, "line": 1, "body": [
                    {"id": j + 1, "err": int(j == k)} for j in range(8)]}})
    for _ in range(8000 if ctx.thorough else 1200):
        g = Gen(ctx.rng, straight, ctx.rng.choice((0, 0.05, 0.15, 0.4)))
        scr.append({"t": ctx.rng.choice("ST"), "drop": int(ctx.rng.random() < 0.25), "f": g.fn(3)})
    for exe, checks in exes:
        core.conformance(ctx, exe, scr, "PropagateTrace", consts="CONSTANT Checks = " + checks,
                         what="propagation macros" + ("" if checks == "TRUE" else " (NDEBUG)"))
