"""File sinks: design model plus concurrent programs under the controlled scheduler."""
from concurrent.futures import ThreadPoolExecutor

from .. import core
from . import pool

IMPL = """SPECIFICATION Spec
INVARIANTS Whole Once There
PROPERTY Grows
CHECK_DEADLOCK FALSE
CONSTANTS Threads = {%s} Calls = %d Bug = "none"
"""


def hx(b):
    return b.hex()


SPECIAL = [b"%s%n%d%%", b"\0", b"\0\0x", b"a\nb\n", b"\r\n", bytes(range(256)), b"\xff\xfe\x80", b" ", b"%",
           b"tail\0after", b"\n", b"\\n", b"\xe2\x82\xac", b"{}{{}}", b"0123456789" * 40]


def message(r, k, big):
    """Pieces [hex, repetitions]; no message plus newline begins another one."""
    head, foot = b"<%d|" % k, b"|%d>%s" % (k, r.choice((b"", b"", b"", b"\n", b"\n\n", b"\r", b"\0")))
    c = r.random()
    if c < 0.25:
        body = [[hx(r.choice(SPECIAL)), 1]]
    elif c < 0.4:
        body = [[hx(r.choice(SPECIAL)), r.choice((2, 3, 50))]]
    elif c < 0.55:
        body = [[hx(r.randbytes(r.choice((1, 7, 64)))), r.choice((1, 2, 63, 64, 65))]]
    elif c < 0.75:
        # Around the sizes of buffers.
        n = r.choice((1023, 1024, 4090, 4095, 4096, 4097, 8191, 8192, 8200))
        body = [[hx(b"x"), max(0, n - len(head) - len(foot) + r.choice((-1, 0, 0, 1)))]]
    elif c < 0.75 + big:
        body = [[hx(r.choice((b"long", b"\0\n", b"%s"))), r.choice((20000, 70000, 150000))]]
    else:
        body = [[hx(b"t%d" % k), 1]]
    return [[hx(head), 1]] + body + [[hx(foot), 1]]


def size(m):
    return sum(len(h) // 2 * n for h, n in m)


def program(r):
    nm = r.choice((1, 2, 3, 4))
    ms = []
    if r.random() < 0.4:
        ms.append([])          # the empty message
    if r.random() < 0.15:
        ms.append([[hx(r.choice((b"%s%n%d", b"\0\0", b"\x80", b"plain"))), 1]])
    for k in range(nm):
        ms.append(message(r, k + 1, 0.08))
    nt = r.choice((1, 1, 2, 2, 3, 4))
    cl = [[r.choice((0, 1, 1, 1)) and r.randrange(1, len(ms) + 1) for _ in range(r.choice((1, 2, 3, 4)))]
          for _ in range(nt)]
    kind = r.choice(("name", "name", "ptr", "own", "keep"))
    where = r.choice(("ok", "ok", "ok", "ok", "ok", "pre" if kind == "name" else "ok",
                      r.choice(("nodir", "isdir", "empty")) if kind == "name" else "ro", "full"))
    quota = 1000000000
    total = sum(size(ms[k - 1]) + 1 for c in cl for k in c if k)
    if where == "ok" and r.random() < 0.25:
        quota = r.choice((0, 1, total // 2, max(0, total - 1), total - 2 if total > 2 else 0, total, total + 1,
                          r.randrange(total + 1)))
    return {"kind": kind, "where": where, "quota": quota, "m": ms, "cl": cl}


def run(ctx):
    with ThreadPoolExecutor(3) as ex:
        fb = ex.submit(pool.build, ctx, "sink", "sink_drv.cc",
                       r"/(logger|check|status|strings|memory|rtti|not_null|stl)/")
        fm = [ex.submit(core.model_check, ctx, "SinkImpl",
                        IMPL % (", ".join(str(x + 1) for x in range(t)), c), workers=3,
                        what="%d threads, %d calls each" % (t, c))
              for t, c in (((2, 2), (3, 1)) if not ctx.thorough else ((2, 3), (3, 2), (4, 1)))]
        exe = fb.result()
        for f in fm:
            f.result()
    for _ in range(12 if ctx.thorough else 1):
        scr = []
        for _ in range(1000):
            p = program(ctx.rng)
            many = len(p["cl"]) > 1
            for _ in range((6 if ctx.thorough else 4) if many else 1):
                q = dict(p)
                q["o"] = pool.opts(ctx.rng)
                scr.append(q)
        core.conformance(ctx, exe, scr, "SinkTrace",
                         what="file sinks under the controlled scheduler")
