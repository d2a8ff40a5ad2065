"""JSON values: exhaustive small scope from ValueMC, random histories."""
import json
import math
import struct
from concurrent.futures import ThreadPoolExecutor
from fractions import Fraction

from .. import core

M53 = 2**53 - 1


def bits(d):
    return struct.pack(">d", d).hex()


def tables(ctx):
    long = b"a rather long key that several others share "
    strs = {b"", b"a", b"b", b"c", b".", b"..", b"a.b", b"a.b.c", b".a", b"a.", b"aa", b"ab", b"A", b"a\0",
            b"a\0b", b"\0", b"\x7f", b"\x80", b"\xff", b"\xc3\xa9", b"a\xff", long, long + b"1", long + b"2",
            long[:-1], b" ", b"10", b"9", b"key", b"x" * 300, b"x" * 299 + b"y", b"/", b"-"}
    base = sorted(strs)
    # Many keys, keys and strings of some length.
    strs |= {b"k%03d" % n for n in range(300)}
    for n in (64, 255, 256, 1000, 5000, 70000):
        strs |= {b"z" * n, b"z" * (n - 1) + b"y"}
    strs = sorted(strs)
    e = 2.0**-52
    nums = {0.0, 1.0, -1.0, 1 + e, 1 - e / 2, 2.0, 0.5, -0.5, 0.1, 0.3, 0.1 + 0.2, e, e / 2, e / 4, -e, 5e-324,
            1e-300, 2.0**31, 2.0**31 - 1, 2.0**31 - 0.5, -2.0**31, -2.0**31 - 1, -2.0**31 - 0.5, 2.0**32,
            2.0**31 + 0.5, -2.0**31 + 0.5,
            2.0**52 - 0.5, 2.0**52 + 1, 2.0**53, 2.0**53 - 1, 2.0**53 + 2, -2.0**53, 1 - 2.0**53, 2.0**62, 2.0**63,
            -2.0**63, 2.0**64, 1e300, 1.7976931348623157e308, -1.7976931348623157e308, 3.0, 1e15 + 0.5, 123456.789,
            -7.0, 1e16, 100.0, 100.0 + 1e-14, 2.0**63 - 1024, -2.0**53 - 2, 2.0**54}
    for _ in range(20):
        nums.add(float(ctx.rng.randrange(-M53 - 5, M53 + 5)))
        nums.add(ctx.rng.uniform(-1e10, 1e10))
        nums.add(struct.unpack(">d", struct.pack(">Q", ctx.rng.getrandbits(64)))[0])
    nums = [x for x in nums if math.isfinite(x)]
    nums.sort(key=Fraction)
    z = nums.index(0.0)
    nums.insert(z, -0.0)
    tab = {"num": [], "int": [], "dbl": []}
    for n, d in enumerate(nums):
        integral = Fraction(d).denominator == 1
        iv = int(d) if integral else None
        tab["num"].append({"rank": z if d == 0 else n,
                           "i64": str(iv) if integral and abs(iv) <= M53 else "",
                           "i32": str(iv) if integral and -2**31 <= iv < 2**31 else ""})
    ints = [0, 1, -1, M53, M53 + 1, -M53, -M53 - 1, 2**31, -2**31, 2**62, 2**63 - 1, -2**63, -2**63 + 1,
            M53 - 1, M53 + 2, 2**53 + 2, -2**53 - 2, 2**60 + 1, 10**18]
    dbls = [float("inf"), float("-inf"), float("nan"), -float("nan"), 1.5, 1.7976931348623157e308, -0.0, 5e-324]
    tab["int"] = [abs(x) <= M53 for x in ints]
    tab["dbl"] = [math.isfinite(x) for x in dbls]
    with open(ctx.path("value.tab"), "w") as f:
        for s in strs:
            f.write("S %s\n" % s.hex())
        for d in nums:
            f.write("D %s\n" % bits(d))
        for d in dbls:
            f.write("B %s\n" % bits(d))
        for x in ints:
            f.write("I %d\n" % x)
    with open(ctx.path("value.json"), "w") as f:
        json.dump(tab, f)
    return strs, nums, ints, dbls, [strs.index(s) + 1 for s in base]


class Gen:
    def __init__(self, rng, tab):
        self.r = rng
        self.strs, self.nums, self.ints, self.dbls, self.base = tab
        self.nodot = [i + 1 for i, s in enumerate(self.strs) if b"." not in s]
        self.few = None

    def scope(self):
        """A few keys, numbers and strings, so that they meet again."""
        r = self.r
        n = r.choice((1, 2, 3, 6))
        some = self.base if r.random() < 0.8 else range(1, len(self.strs) + 1)
        self.keys = r.sample(some, n)
        self.pkeys = r.sample([k for k in self.nodot if k in some], n)
        self.keys += r.sample(self.pkeys, min(2, n))
        k = r.randrange(len(self.nums))
        self.ns = [max(1, min(len(self.nums), k + d)) for d in (-1, 0, 1, 2)] + \
            r.sample(range(1, len(self.nums) + 1), 2)

    def lit(self, d):
        r = self.r
        x = r.random()
        if d <= 0 or x < 0.45:
            t = r.randrange(7)
            if t == 0:
                return ["null", 0, [], []]
            if t == 1:
                return ["bool", r.randrange(2), [], []]
            if t in (2, 3, 4):
                return ["num", r.choice(self.ns), [], []]
            return ["str", r.choice(self.keys), [], []]
        n = r.choice((0, 1, 1, 2, 3))
        if x < 0.7:
            return ["arr", 0, [], [self.lit(d - 1) for _ in range(n)]]
        ks = sorted(set(r.choice(self.keys) for _ in range(n)))
        return ["obj", 0, ks, [self.lit(d - 1) for _ in ks]]

    def obj(self, d):
        while True:
            x = self.lit(d)
            if x[0] == "obj":
                return x

    def near(self, t):
        """t with one detail changed, or t itself."""
        r = self.r
        t = json.loads(json.dumps(t))
        c = t
        while c[3] and r.random() < 0.7:
            c = c[3][r.randrange(len(c[3]))]
        x = r.random()
        if x < 0.25:
            return t
        if c[0] == "num" and x < 0.8:
            c[1] = max(1, min(len(self.nums), c[1] + r.choice((-1, 1, 2))))
        elif c[0] == "str" and x < 0.8:
            c[1] = max(1, min(len(self.strs), c[1] + r.choice((-1, 1))))
        elif c[0] == "arr" and x < 0.8:
            if c[3] and r.random() < 0.5:
                c[3].pop()
            else:
                c[3].append(self.lit(1))
        elif c[0] == "obj" and c[2] and x < 0.8:
            j = r.randrange(len(c[2]))
            if r.random() < 0.5:
                del c[2][j], c[3][j]
            else:
                k = max(1, min(len(self.strs), c[2][j] + r.choice((-1, 1))))
                if k not in c[2]:
                    v = c[3][j]
                    del c[2][j], c[3][j]
                    p = sum(1 for y in c[2] if y < k)
                    c[2].insert(p, k)
                    c[3].insert(p, v)
        else:
            c[:] = self.lit(1)
        return t

    def loc(self, n=3):
        r = self.r
        return [r.randint(1, n)] + [r.choice((0, 1, 2, 3, 4)) for _ in range(r.choice((0, 0, 1, 2, 4)))]

    def path(self):
        r = self.r
        return [r.choice(self.pkeys) for _ in range(r.choice((1, 2, 2, 3, 4)))]

    def v01(self):
        r = self.r
        s = [{"op": "new", "s": 1, "v": self.obj(r.choice((0, 2, 3)) + 1)}]
        if r.random() < 0.3:
            s.append({"op": "new", "s": 2, "v": self.obj(2)})
        types = ("null", "bool", "num", "str", "arr", "obj")
        for _ in range(r.choice((3, 8, 25))):
            at = self.loc(2) if r.random() < 0.4 else [1]
            k = r.choice(self.keys)
            s.append(r.choice((
                lambda: {"op": "setkey", "at": at, "k": k, "v": self.lit(2)},
                lambda: {"op": "setkey", "at": at, "k": k, "v": self.lit(0)},
                lambda: {"op": "setpath", "at": at, "path": self.path(), "v": self.lit(1)},
                lambda: {"op": "setpath", "at": at, "path": self.path(), "v": self.lit(2)},
                lambda: {"op": "remkey", "at": at, "k": k},
                lambda: {"op": "findkey", "at": at, "k": k},
                lambda: {"op": "findpath", "at": at, "path": self.path()},
                lambda: {"op": "findpath", "at": at, "path": self.path()},
                lambda: {"op": "setfound", "at": at, "path": self.path(), "v": self.lit(1)},
                lambda: {"op": "findtype", "at": at, "k": k, "t": r.choice(types)},
                lambda: {"op": "findtype", "at": at, "k": k, "t": r.choice(types)},
                lambda: {"op": "findnum", "at": at, "k": k, "t": r.choice(("int", "int64"))}))())
        return s

    def v02(self):
        r = self.r
        s = [{"op": "new", "s": k, "v": self.lit(r.choice((1, 3, 4)))} for k in (1, 2, 3)]
        for _ in range(r.choice((3, 8, 20))):
            s.append(r.choice((
                lambda: {"op": "new", "s": r.randint(1, 4), "v": self.lit(3)},
                lambda: {"op": "move", "s": r.randint(1, 4), "from": self.loc(4)},
                lambda: {"op": "assign", "to": self.loc(4), "from": self.loc(4)},
                lambda: {"op": "assign", "to": self.loc(4), "from": self.loc(4)},
                lambda: {"op": "assign", "to": [1], "from": [1] + [r.randint(1, 3)] * r.randint(1, 3)},
                lambda: {"op": "swap", "to": self.loc(4), "from": self.loc(4)},
                lambda: {"op": "clone", "s": r.randint(1, 4), "from": self.loc(4)},
                lambda: {"op": "clone", "s": r.randint(1, 4), "from": self.loc(4)},
                lambda: {"op": "push", "at": self.loc(4), "v": self.lit(2)},
                lambda: {"op": "pop", "at": self.loc(4), "x": r.randrange(9)},
                lambda: {"op": "insert", "at": self.loc(4), "x": r.randrange(9), "v": self.lit(2)},
                lambda: {"op": "drop", "s": r.randint(1, 4)}))())
        if r.random() < 0.1:
            s += [{"op": "new", "s": 1, "v": ["arr", 0, [], []]}]
            s += [{"op": "push", "at": [1], "v": self.lit(2)} for _ in range(20)]
        return s

    def v03(self):
        r = self.r
        s = []
        for _ in range(12):
            a = self.lit(r.choice((0, 0, 1, 2, 4)))
            b = self.near(a) if r.random() < 0.8 else self.lit(2)
            s.append({"op": "cmplit", "v": a, "w": b})
            s.append({"op": "cmplit", "v": b, "w": a})
        if r.random() < 0.3:
            a = self.lit(2)
            arr = ["arr", 0, [], [self.near(a) for _ in range(r.randint(2, 9))]]
            s += [{"op": "new", "s": 1, "v": arr}, {"op": "sort", "at": [1]}]
            s += [{"op": "cmp", "a": self.loc(1), "b": self.loc(1)} for _ in range(4)]
        return s

    def v04(self):
        r = self.r
        s = [{"op": "new", "s": 1, "v": self.lit(2)}]
        for _ in range(8):
            s.append({"op": "predlit", "v": self.lit(r.choice((0, 0, 1)))})
            s.append({"op": "preds", "at": self.loc(1)})
        x = r.random()
        at = self.loc(1)
        if x < 0.5:
            s.append({"op": "get", "at": at, "t": r.choice(
                ("bool", "int", "int64", "double", "string", "array", "object", "int", "int64"))})
        elif x < 0.8:
            k = r.choice(self.keys)
            s.append(dict(r.choice((
                {"op": "setkey", "k": k, "v": self.lit(1)}, {"op": "remkey", "k": k}, {"op": "findkey", "k": k},
                {"op": "findpath", "path": self.path()}, {"op": "setpath", "path": self.path(), "v": self.lit(0)},
                {"op": "findtype", "k": k, "t": r.choice(("bool", "num", "str", "arr", "obj", "null"))},
                {"op": "findnum", "k": k, "t": r.choice(("int", "int64"))})), at=at, chk=1))
        elif x < 0.9:
            s.append({"op": "int", "n": r.randint(1, len(self.ints))})
        else:
            s.append({"op": "dbl", "n": r.randint(1, len(self.dbls))})
        return s


def large(g, pid, n):
    """Wide, deep and long values."""
    r, out = g.r, []
    nul = ["null", 0, [], []]

    def leaf():
        return r.choice((["num", r.randint(1, len(g.nums)), [], []], ["str", r.randint(1, len(g.strs)), [], []],
                         ["bool", r.randrange(2), [], []], nul))

    def wide(kind, m):
        if kind == "arr":
            return ["arr", 0, [], [leaf() for _ in range(m)]]
        ks = sorted(r.sample(g.nodot, min(m, len(g.nodot))))
        return ["obj", 0, ks, [leaf() for _ in ks]]

    def deep(d, inner):
        p = []
        for _ in range(d):
            k = r.choice(g.nodot)
            inner = ["obj", 0, [k], [inner]]
            p.insert(0, k)
        return inner, p
    for _ in range(n):
        kind = r.choice(("arr", "obj"))
        d = r.choice((1, 9, 17, 33, 70))
        if pid == "v01":
            v, p = deep(d, wide("obj", r.choice((2, 20, 70, 290))))
            keys = [r.choice(g.nodot) for _ in range(3)]
            inner = v
            for _ in p:
                inner = inner[3][0]
            keys += [inner[2][0], inner[2][-1], r.choice(inner[2])]
            s = [{"op": "new", "s": 1, "v": v}]
            for k in keys:
                s += [{"op": "findpath", "at": [1], "path": p + [k]}, {"op": "setpath", "at": [1], "path": p + [k], "v": leaf()},
                      {"op": "findpath", "at": [1], "path": p + [k]}]
            s += [{"op": "findpath", "at": [1], "path": p[:-1] + [r.choice(g.nodot), keys[-1]]},
                  {"op": "setpath", "at": [1], "path": [r.choice(g.nodot) for _ in range(d)], "v": leaf()},
                  {"op": "setfound", "at": [1], "path": p + [keys[-1]], "v": leaf()}]
            w = wide("obj", r.choice((20, 70, 290)))
            s += [{"op": "new", "s": 1, "v": w}]
            for k in (w[2][0], w[2][-1], r.choice(w[2]), r.choice(g.nodot)):
                s += [{"op": "findkey", "at": [1], "k": k}, {"op": "setkey", "at": [1], "k": k, "v": leaf()},
                      {"op": "remkey", "at": [1], "k": k}, {"op": "findkey", "at": [1], "k": k}]
        elif pid == "v02":
            v = wide(kind, r.choice((17, 70, 300, 1100)))
            if r.random() < 0.5:
                v = deep(d, v)[0]
            s = [{"op": "new", "s": 1, "v": v}, {"op": "clone", "s": 2, "from": [1]},
                 {"op": "clone", "s": 3, "from": [1, 1]}, {"op": "move", "s": 4, "from": [2]},
                 {"op": "assign", "to": [2], "from": [4]}, {"op": "swap", "to": [2], "from": [3]}]
        elif pid == "v03":
            v = deep(d, wide(kind, r.choice((9, 33, 70, 200))))[0]
            s = []
            for _ in range(4):
                w = json.loads(json.dumps(v))
                c = w
                while c[3] and c[3][0][3]:
                    c = c[3][0]
                x = r.choice((-1, -1, r.randrange(len(c[3]))))
                y = r.randrange(4)
                if y == 0:
                    c[3].pop()
                    c[2][-1:] = []
                elif y == 1:
                    c[3][x] = leaf()
                elif y == 2 and c[2]:
                    if c[2][-1] < len(g.strs):
                        c[2][-1] += 1
                s += [{"op": "cmplit", "v": v, "w": w}, {"op": "cmplit", "v": w, "w": v}]
        else:
            continue
        out.append(s)
    return out


def fixed_v03(g):
    """All pairs of numbers, strings and types."""
    s = []
    n, m = len(g.nums), len(g.strs)
    strs = g.base + [k for k in range(1, m + 1) if len(g.strs[k - 1]) > 60 and k not in g.base]
    for a in range(1, n + 1):
        s.append([{"op": "cmplit", "v": ["num", a, [], []], "w": ["num", b, [], []]} for b in range(1, n + 1)])
    for a in strs:
        s.append([{"op": "cmplit", "v": ["str", a, [], []], "w": ["str", b, [], []]} for b in strs])
    for a in strs:
        s.append([{"op": "cmplit", "v": ["obj", 0, [a], [["null", 0, [], []]]],
                   "w": ["obj", 0, [b], [["bool", 0, [], []]]]} for b in strs])
    ty = [["null", 0, [], []], ["bool", 0, [], []], ["bool", 1, [], []], ["num", 1, [], []],
          ["num", n, [], []], ["str", 1, [], []], ["str", m, [], []], ["arr", 0, [], []], ["obj", 0, [], []],
          ["arr", 0, [], [["null", 0, [], []]]], ["obj", 0, [1], [["null", 0, [], []]]]]
    s.append([{"op": "cmplit", "v": a, "w": b} for a in ty for b in ty])
    return s


def fixed_v04(g):
    s = []
    for a in range(1, len(g.nums) + 1):
        s.append([{"op": "new", "s": 1, "v": ["num", a, [], []]}, {"op": "preds", "at": [1]}] +
                 [{"op": "get", "at": [1], "t": "double"}])
        for t in ("int", "int64"):
            s.append([{"op": "new", "s": 1, "v": ["num", a, [], []]}, {"op": "get", "at": [1], "t": t}])
            s.append([{"op": "new", "s": 1, "v": ["obj", 0, [3], [["num", a, [], []]]]},
                      {"op": "findnum", "at": [1], "k": 3, "t": t}])
    for a in range(1, len(g.ints) + 1):
        s.append([{"op": "int", "n": a}])
    for a in range(1, len(g.dbls) + 1):
        s.append([{"op": "dbl", "n": a}])
    lits = [["null", 0, [], []], ["bool", 1, [], []], ["num", 3, [], []], ["num", len(g.nums), [], []],
            ["str", 2, [], []], ["arr", 0, [], []], ["obj", 0, [], []]]
    for v in lits:
        for t in ("bool", "int", "int64", "double", "string", "array", "object"):
            s.append([{"op": "new", "s": 1, "v": v}, {"op": "get", "at": [1], "t": t}])
        for o in ({"op": "setkey", "k": 2, "v": lits[0]}, {"op": "remkey", "k": 2}, {"op": "findkey", "k": 2},
                  {"op": "findpath", "path": g.nodot[1:3]}, {"op": "setpath", "path": g.nodot[1:3], "v": lits[0]}):
            s.append([{"op": "new", "s": 1, "v": v}, dict(o, at=[1], chk=1)])
        for t in ("null", "bool", "num", "str", "arr", "obj"):
            for _ in range(2):
                s.append([{"op": "new", "s": 1, "v": v}, {"op": "findtype", "at": [1], "k": 2, "t": t, "chk": 1}])
    return s


MC = """INIT MInit
NEXT MNext
VIEW MView
ACTION_CONSTRAINT MEmit
CHECK_DEADLOCK FALSE
INVARIANTS Laws
CONSTANTS Part = "%s" Big = %s Emit = TRUE
"""


def run(ctx):
    tab = tables(ctx)
    g = Gen(ctx.rng, tab)
    pid = ctx.pid.lower()
    with ThreadPoolExecutor(3) as ex:
        fb = ex.submit(core.build, ctx, "value", ["value_drv.cc"], only=r"/(value|check|clone)/")
        fm = ex.submit(core.tlc, ctx, "ValueMC", MC % (pid, "TRUE" if ctx.thorough else "FALSE"), None, 1, (), 800)
        exe, r = fb.result(), fm.result()
    if r.rc != 0:
        raise core.CheckError("ValueMC failed (rc %d):\n%s" % (r.rc, r.out[-6000:]))
    ctx.cov["states"] += r.distinct
    ctx.cov["transitions"] += r.generated
    # The model's keys 1..n become two- and three-letter words of the table.
    keymap = [0] + [tab[0].index(s) + 1 for s in (b"a", b"b")]
    z = tab[1].index(1.0) + 1
    nummap = {1: z, 2: z + 1}

    def tr(v):
        return [v[0], nummap[v[1]] if v[0] == "num" else keymap[v[1]] if v[0] == "str" else v[1],
                [keymap[k] for k in v[2]], [tr(c) for c in v[3]]]

    def conv(o):
        o = dict(o)
        for f in ("v", "w"):
            if f in o:
                o[f] = tr(o[f])
        if "k" in o:
            o["k"] = keymap[o["k"]]
        if "path" in o:
            o["path"] = [keymap[k] for k in o["path"]]
        for f in ("at", "from", "to", "a", "b"):
            if f in o:
                o[f] = {"s": o[f]["s"], "p": [[s[0], keymap[s[1]] if s[0] == "k" else s[1]] for s in o[f]["p"]]}
        return o
    # Steps from the same tree share a script; reads keep the tree.
    scr = [[conv(o) for o in h] for h in core.parse_printed(r.out, "@H")]
    ctx.log("ValueMC", pid, "distinct", r.distinct, "steps", len(scr))
    packed, cur = [], []
    for h in scr:
        cur += h
        if len(cur) > 60:
            packed.append(cur)
            cur = []
    if cur:
        packed.append(cur)
    n = {"v01": 700, "v02": 700, "v03": 700, "v04": 900}[pid] * (25 if ctx.thorough else 1)
    rnd = []
    for _ in range(n):
        g.scope()
        rnd.append(getattr(g, pid)())
    fixed = {"v03": fixed_v03, "v04": fixed_v04}.get(pid, lambda g: [])(g)
    kw = dict(env={"TABLE": ctx.path("value.json")}, extra=[ctx.path("value.tab")])
    core.conformance(ctx, exe, packed + fixed, "ValueTrace", what="every small value and operation", **kw)
    core.conformance(ctx, exe, large(g, pid, 400 if ctx.thorough else 40), "ValueTrace", what="large values", **kw)
    for a in range(0, len(rnd), 5000):
        core.conformance(ctx, exe, rnd[a:a + 5000], "ValueTrace", what="random histories", **kw)
