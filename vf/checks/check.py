"""Contract macros: all small programs, every form in every place, random ones."""
from concurrent.futures import ThreadPoolExecutor

from .. import core

MC = """INIT MInit
NEXT MNext
INVARIANTS Sure Stops MEmit
CHECK_DEADLOCK FALSE
CONSTANTS Checks = %s Emit = TRUE MaxStmts = %d MaxDepth = %d Forms = {%s} Places = {%s} Macros = {%s} Vs = {%s}
"""
WALK = """INIT MInit
NEXT WNext
INVARIANTS Stops WEmit
CHECK_DEADLOCK FALSE
CONSTANTS Checks = %s Emit = FALSE MaxStmts = %d MaxDepth = 4 Forms = {%s} Places = {%s} Macros = {%s} Vs = {%s}
"""
FORMS = ("bool int wide wider half tiny negative char pointer unique shared function optional explicit or orlast and "
         "andfirst equal unequal not less ternary assign comma bits template lambda "
         "condition cond c x b a e v t r s p o_ ok is_ok res result ret value val expr passed failed bad good error fail check holds violated").split()
PLACES = "plain then else dangling for while do switch lambda label".split()
MACROS = "check dcheck notreached likely unlikely likelyeq".split()
VS = "2 5 256 -1 -256 65536 4294967296 -4294967296 9223372036854775807 -9223372036854775808".split()


def q(l):
    return ",".join('"%s"' % x for x in l)


def run(ctx):
    k, n, ln = (4, 2000, 120) if ctx.thorough else (3, 200, 60)
    only = r"/(check|not_null)/"
    builds = (("check", "TRUE", []), ("check_ndebug", "FALSE", ["-DNDEBUG"]), ("check_o2", "TRUE", None), ("check_ndebug_o2", "FALSE", None))

    def make(name, flags):
        # Conditions that a macro does not compile with are made plain ones.
        for x in ([], ["-DNO_ASSIGN"], ["-DNO_EXPLICIT"], ["-DNO_ASSIGN", "-DNO_EXPLICIT"]):
            try:
                exe = core.build(ctx, name, ["check_drv.cc"], flags=flags + x, only=only)
                if exe is not None or len(x) == 2:
                    return exe
            except core.CheckError:
                if len(x) == 2:
                    raise
    with ThreadPoolExecutor(6) as ex:
        fb = []
        for name, c, fl in builds:
            flags = core.ASAN + fl if fl is not None else ["-O2"] + (["-DNDEBUG"] if c == "FALSE" else [])
            fb.append(ex.submit(make, name, flags))
        scr = {}
        for c in ("TRUE", "FALSE"):
            cfgs = [MC % (c, 1, 1, q(FORMS), q(["plain"]), q(MACROS), q(VS)),
                    MC % (c, 1, 1, q(["bool"]), q(PLACES), q(MACROS[:3]), ""),
                    MC % (c, k, 3, q(["bool"]), q(["plain"]), q(MACROS[:4]), "")]
            fs = [ex.submit(core.tlc, ctx, "CheckMC", cfg, workers=2) for cfg in cfgs]
            fw = ex.submit(core.simulate, ctx, "CheckMC", WALK % (c, ln, q(FORMS), q(PLACES), q(MACROS), q(VS)), n, 8 * ln, procs=2)
            scr[c] = (fs, fw)
        exes = [f.result() for f in fb]
        for c in scr:
            out = []
            for f in scr[c][0]:
                r = f.result()
                if r.rc != 0:
                    raise core.CheckError("model check of CheckMC failed:\n" + r.out[-4000:])
                ctx.cov["states"] += r.distinct
                ctx.cov["transitions"] += r.generated
                out += core.parse_printed(r.out, "@S")
            w = scr[c][1].result()
            out.sort(key=repr)
            ctx.log("assertions", c, "small programs", len(out), "random ones", len(w))
            scr[c] = out + w
    for (name, c, _), exe in zip(builds, exes):
        core.conformance(ctx, exe, scr[c], "CheckTrace", consts="CONSTANT Checks = " + c, what="contract statements, " + name)
