"""Scope and lifetime helpers: generated programs of nested scopes; function objects."""
import os
from concurrent.futures import ThreadPoolExecutor

from .. import core

MC = """INIT MInit
NEXT MNext
INVARIANTS Once AllRan Order Waiting MEmit
CHECK_DEADLOCK FALSE
CONSTANTS Emit = TRUE MaxStmts = %d MaxDepth = %d SimDepth = 0
"""
WALK = """INIT MInit
NEXT WNext
INVARIANTS Once AllRan Order Waiting WEmit
CHECK_DEADLOCK FALSE
CONSTANTS Emit = FALSE MaxStmts = %d MaxDepth = 6 SimDepth = 0
"""
FSIM = """INIT MInit
NEXT WNext
INVARIANTS Inv WEmit
CHECK_DEADLOCK FALSE
CONSTANTS SimDepth = %d Emit = FALSE MaxIds = 8
"""
FMC = """INIT MInit
NEXT MNext
INVARIANT Inv
VIEW View
ACTION_CONSTRAINT EmitEdge
CHECK_DEADLOCK FALSE
CONSTANTS SimDepth = 0 Emit = TRUE MaxIds = %d
"""
OPEN = {"block": "{", "if": "if (Yes()) {", "loop": "for (int i = 0; i < 1; i++) {",
        "loop2": "for (int i = 0; i < 2; i++) { if (i == 1) continue;", "switch": "switch (Yes()) { case false: break; default: {",
        "fn": "[&] {", "try": "try {"}
CLOSE = {"switch": "}}", "fn": "}();", "try": "} catch (int) {}"}


def action(k, sub, own, test):
    body = "Run(%d, %s);" % (k, test)
    if sub:
        body += " RST_DEFER([u = Tok(%d)] { Run(%d, u.id == %d); }); In(%d);" % (sub, sub, sub, k)
    return "[%s] { %s }" % (own, body)


def defer(f, k, sub):
    tok = action(k, sub, "t = Tok(%d)" % k, "t.id == %d" % k)
    if f == "lambda":
        return "RST_DEFER(%s);" % tok
    if f in ("lvalue", "const"):
        return "%sauto f%d = %s; RST_DEFER(f%d);" % ("const " if f == "const" else "", k, tok, k)
    if f == "moveonly":
        return "RST_DEFER(%s);" % action(k, sub, "t = VF_OWN<Tok>(%d)" % k, "t && t->id == %d" % k)
    if f == "function":
        return "RST_DEFER(std::function<void()>(%s));" % tok
    if f == "pointer":
        return "RST_DEFER(&RunPtr<%d>);" % k
    if f == "big":
        return "RST_DEFER(%s);" % action(k, sub, "b = Big(%d)" % k, "b.Ok(%d)" % k)
    raise ValueError(f)


def never(f, k):
    pre, t, a = "", "Obj", ""
    if f == "args":
        pre, a = "int b%d = 1; const int c%d = 2;" % (k, k), "(std::make_unique<int>(%d), b%d, c%d)" % (k - 3, k, k)
    elif f in ("copy", "move"):
        pre = "%sObj s%d(nullptr, %d);" % ("const " if f == "copy" and k % 2 else "", k, k)
        a = "(s%d)" % k if f == "copy" else "(std::move(s%d))" % k
    elif f == "list":
        a = "(std::initializer_list<int>{%d, 0})" % k
    elif f == "aligned":
        t = "Aligned"
    return "%s Never(\"%s\", %d); rst::NoDestructor<%s> n%d%s; Have(n%d);" % (pre, f, k, t, k, a, k)


def code(name, prog):
    out = ["void %s() { [&] {" % name]
    stack = ["fn"]
    for s in prog:
        w = s[0]
        if w == "enter":
            stack.append(s[1])
            out.append("%s Enter(\"%s\");" % (OPEN[s[1]], s[1]))
        elif w == "defer":
            # The action is deferred when the statement is complete.
            out.append("%s Deferred(%d, %d);" % (defer(s[1], s[2], s[3]), s[2], s[3]))
        elif w == "act":
            out.append("Act(%d);" % s[1])
        elif w == "never":
            out.append(never(s[1], s[2]))
        else:
            how, n = s[1], s[2]
            out.append("Exit(\"%s\", %d);" % (how, n))
            lab = "L%d" % len(out)
            if how == "goto":
                out.append("if (Yes()) goto %s;" % lab)
            elif how != "fall":
                out.append("if (Yes()) %s;" % (how if how != "throw" else "throw 1"))
            for _ in range(n):
                out.append(CLOSE.get(stack.pop(), "}"))
            if how == "goto":
                out.append(lab + ":;")
    assert not stack, prog
    out.append("}")
    return "\n".join(out)


def programs(ctx):
    n, m, d = (5, 160, 50) if not ctx.thorough else (6, 1200, 90)
    with ThreadPoolExecutor(2) as ex:
        fe = ex.submit(core.tlc, ctx, "ScopeMC", MC % (n, 3), workers=2)
        fw = ex.submit(core.simulate, ctx, "ScopeMC", WALK % d, m, 6 * d, procs=3)
        r = fe.result()
        if r.rc != 0:
            raise core.CheckError("model check of ScopeMC failed:\n" + r.out[-4000:])
        ctx.cov["states"] += r.distinct
        ctx.cov["transitions"] += r.generated
        small = sorted(core.parse_printed(r.out, "@S"), key=repr)
        walks = fw.result()
    # Every shape once: states differ in their histories only.
    total = len(small)
    small = [p for p in small if any(s[0] == "defer" for s in p)]
    cap = 6000 if ctx.thorough else 900
    if len(small) > cap:
        small = ctx.rng.sample(small, cap)
    ctx.log("small programs", total, "of which generated", len(small), "random ones", len(walks))
    return small + walks


def run_scopes(ctx):
    progs = programs(ctx)
    d = ctx.path("gen")
    os.makedirs(d, exist_ok=True)
    parts = 16
    files = []
    for j in range(parts):
        p = os.path.join(d, "scope_gen%d.cc" % j)
        with open(p, "w") as f:
            f.write('#include "%s"\nnamespace vf {\n' % os.path.join(core.HARNESS, "scope.h"))
            for k in range(j, len(progs), parts):
                f.write(code("P%d" % k, progs[k]) + "\n")
            f.write("}\n")
        files.append(p)
    p = os.path.join(d, "scope_gen.cc")
    with open(p, "w") as f:
        f.write('#include "%s"\nnamespace vf {\n' % os.path.join(core.HARNESS, "scope.h"))
        f.write("".join("void P%d();\n" % k for k in range(len(progs))))
        f.write("void (*const g_programs[])() = {%s};\n}\n" % ", ".join("P%d" % k for k in range(len(progs))))
    try:
        exe = core.build(ctx, "scope", ["scope_drv.cc", p] + files, only=r"/(check|not_null)/",
                         driver_flags=core.ASAN + ["-fexceptions"])
    except core.CheckError:
        exe = core.build(ctx, "scope", ["scope_drv.cc", p] + files, only=r"/(check|not_null)/",
                         driver_flags=core.ASAN + ["-fexceptions", "-DNO_MOVEONLY"])
    core.conformance(ctx, exe, [{"p": k, "prog": x} for k, x in enumerate(progs)], "ScopeTrace", what="scopes")



def run_funcs(ctx):
    n, d = (4000, 400) if ctx.thorough else (160, 200)
    with ThreadPoolExecutor(3) as ex:
        fb = ex.submit(core.build, ctx, "func", ["func_drv.cc"], only=r"/(check|stl|not_null)/")
        fg = ex.submit(core.graph_from, ctx, "FuncMC", FMC % (5 if ctx.thorough else 4))
        fs = ex.submit(core.simulate, ctx, "FuncMC", FSIM % d, n, d, procs=2)
        exe, g, sims = fb.result(), fg.result(), fs.result()
    paths = g.cover(ctx.rng)
    ctx.log("edge cover:", len(paths), "scripts of", g.nedges, "edges")
    sigs = ("void", "int", "own", "ref")
    scr = [{"sig": sigs[k % 4], "ops": p} for k, p in enumerate(paths + sims)]
    if ctx.thorough:
        scr += [{"sig": sigs[(k + 1) % 4], "ops": p} for k, p in enumerate(paths + sims)]
    for k in range(40):
        scr.append({"l": [ctx.rng.randrange(0, 30) for _ in range(k if k < 20 else ctx.rng.randrange(200))]})
    core.conformance(ctx, exe, scr, "FuncTrace", what="function objects")


def run(ctx):
    with ThreadPoolExecutor(2) as ex:
        a, b = ex.submit(run_scopes, ctx), ex.submit(run_funcs, ctx)
        a.result(), b.result()
