"""File functions: every system call on the scratch directory is a step."""
import os
from concurrent.futures import ThreadPoolExecutor

from .. import core

SIZES = (0, 1, 10, 100, 4095, 4096, 4097, 8192, 8193, 65536, 131071, 131072, 131073, 262147)
BIG = (1 << 20, (1 << 20) + 1, 2000001)
ERR = {"open": ("EACCES", "EMFILE", "ENOSPC", "EROFS", "EINTR", "EPERM", "ENOMEM"),
       "write": ("ENOSPC", "EIO", "EDQUOT", "EFBIG", "EINTR"),
       "close": ("EIO", "ENOSPC", "EDQUOT", "EINTR"),
       "rename": ("EXDEV", "EACCES", "EBUSY", "EIO", "EPERM", "ENOSPC", "EROFS"),
       "unlink": ("EBUSY", "EACCES", "EIO"),
       "read": ("EIO", "EINTR"),
       "stat": ("EIO", "EACCES")}

IMPL = """SPECIFICATION Spec
INVARIANTS Atomic OldIntact Success Spurious Others NoLeft Emitted
CHECK_DEADLOCK FALSE
CONSTANTS N = %d MaxFaults = %d Bug = "none" Emit = TRUE
"""


class Gen:
    def __init__(self, rng, big):
        self.r = rng
        self.sizes = SIZES + (BIG if big else ())
        self.k = 10

    def data(self):
        self.k += 1
        r = self.r
        n = r.choice(self.sizes) if r.random() < 0.4 else r.choice((0, 1, 20, 200, 4096, 5000, 9000))
        if r.random() < 0.03:
            n = r.choice(BIG)
        return [n, self.k]

    def fault(self, p, ats, calls=3):
        r = self.r
        at = r.choice(ats)
        f = {"p": p, "at": at, "nth": r.choice((1, 1, 1, 2, 3)), "call": r.randint(1, calls)}
        x = r.random()
        if at == "open" and x < 0.3:
            f.update(act="decoy", kind=r.choice(("file", "link", "hard")))
        elif at == "stat" and x < 0.7:
            f.update(act="size", n=r.choice((0, 1, 5, 4095, 100000, 1 << 20)))
        elif at in ("read", "write") and x < 0.35:
            f.update(act="short", n=r.choice((1, 2, 7, 100, 4095, 4096, 5000)))
            if r.random() < 0.5:
                f["sticky"] = 1
                f["n"] = r.choice((4095, 5000, 30000))
        elif x < 0.15:
            f.update(act=r.choice(("kill", "killafter")))
        else:
            e = r.choice(ERR[at])
            f.update(act="err", errno=e)
            if e != "EINTR" and (at == "unlink" or r.random() < 0.75):
                f["sticky"] = 1
        return f

    def old(self, name):
        r = self.r
        x = r.random()
        if x < 0.55:
            return [{"name": name, "kind": "file", "data": self.data()}]
        if x < 0.82:
            return [{"name": name, "kind": "absent"}]
        if x < 0.9:
            return [{"name": name, "kind": "link", "to": "keep" if r.random() < 0.7 else "nowhere"}]
        return [{"name": name, "kind": "file", "data": self.data()},
                {"name": "other", "kind": "hard", "to": name}]

    def path(self, name):
        return self.r.choice((name, name, "./" + name, "@/" + name))

    def base(self, procs, faults, pre):
        return {"pre": [{"name": "keep", "kind": "file", "data": [30, 7]}] + pre, "procs": procs,
                "faults": faults, "sched": [], "seed": self.r.randrange(1 << 30)}

    def important(self, readers=True, many=True):
        r = self.r
        n = r.choice((1, 1, 2, 2, 3, 4)) if many else 1
        names = ["f1"] * 3 + ["f1.tmp"] * 2 + r.sample(["f1a", "F1", "sub/f1", "f", " f1 .%n", "\u00e9"], 2)
        pre, used, procs = [{"name": "sub", "kind": "dir"}], {}, []
        for p in range(1, n + 1):
            calls = []
            for _ in range(r.choice((1, 1, 2, 3))):
                x = r.random()
                if x < 0.06:
                    calls.append({"fn": "important", "path": "no/f1", "dest": "no/f1", "data": self.data(),
                                  "env": "open"})
                elif x < 0.12:
                    calls.append({"fn": "important", "path": "sub", "dest": "sub", "data": self.data(),
                                  "env": "file"})
                elif x < 0.15:
                    calls.append({"fn": "important", "path": "n" * 300, "dest": "n" * 300,
                                  "data": self.data(), "env": "open"})
                else:
                    d = r.choice(names)
                    if d not in used:
                        used[d] = 1
                        pre += [f for f in self.old(d) if f["name"] not in [g["name"] for g in pre]]
                    calls.append({"fn": "important", "path": self.path(d), "dest": d, "data": self.data(),
                                  "env": "ok"})
            procs.append(calls)
        if readers and r.random() < 0.3 and n < 5:
            fs = [f["name"] for f in pre if f["kind"] == "file" and f["name"] != "other"]
            if fs:
                d = r.choice(fs)
                procs.append([{"fn": "read", "path": d, "dest": d, "env": "ok"} for _ in range(3)])
        f = []
        for _ in range(r.choice((0, 1, 1, 1, 2, 3))):
            f.append(self.fault(r.randint(1, n), ("open", "write", "close", "rename", "unlink", "stat", "write",
                                                  "close", "rename")))
        s = self.base(procs, f, pre)
        if len(procs) > 1 and r.random() < 0.4 and not any("kill" in x["act"] for x in f):
            s["threads"] = 1
        return s

    def write(self):
        r = self.r
        x = r.random()
        pre = []
        if x < 0.75:
            pre = self.old("f1")
            calls = [{"fn": "write", "path": self.path("f1"), "dest": "f1", "data": self.data(), "env": "ok"}
                     for _ in range(r.choice((1, 2, 3)))]
            if pre[0]["kind"] == "link":
                calls = [dict(c, path="keep", dest="keep") for c in calls]
        elif x < 0.85:
            calls = [{"fn": "write", "path": "no/f1", "dest": "no/f1", "data": self.data(), "env": "open"}]
        elif x < 0.9:
            pre = [{"name": "sub", "kind": "dir"}]
            calls = [{"fn": "write", "path": "sub", "dest": "sub", "data": self.data(), "env": "open"}]
        else:
            calls = [{"fn": "write", "path": "/dev/full", "dest": "/dev/full",
                      "data": [r.choice((1, 100, 5000, 70000)), 3], "env": "file"}]
        f = [self.fault(1, ("open", "write", "write", "close", "stat")) for _ in range(r.choice((0, 1, 1, 2)))]
        f = [x for x in f if "kill" not in x["act"] and x["act"] != "decoy"]
        return self.base([calls], f, pre)

    def read(self):
        r = self.r
        x = r.random()
        f = []
        for _ in range(r.choice((0, 1, 1, 2, 2, 3))):
            f.append(self.fault(1, ("open", "read", "read", "read", "close", "stat", "stat")))
        f = [y for y in f if "kill" not in y["act"] and y["act"] != "decoy"]
        for _ in range(r.choice((0, 0, 3, 8))):
            f.append({"p": 1, "at": "read", "nth": r.randint(1, 12), "act": "short",
                      "n": r.choice((1, 7, 100, 4096, 5000))})
        if x < 0.55:
            d = self.data()
            pre = [{"name": "f1", "kind": "file", "data": d}]
            calls = [{"fn": "read", "path": self.path("f1"), "dest": "f1", "want": d, "env": "ok"}] * r.choice((1, 2))
            if r.random() < 0.2:
                pre.append({"name": "l1", "kind": "link", "to": "f1"})
                calls = [dict(c, path="l1", dest="l1") for c in calls]
            return self.base(calls and [calls], f, pre)
        if x < 0.75:
            d = self.data()
            cuts = [r.choice((1, 2, 100, 4095, 4096, 4097, 65536)) for _ in range(r.choice((0, 1, 3, 6)))]
            s = self.base([[{"fn": "read", "path": "ff", "dest": "ff", "want": d, "env": "ok"}]], f,
                          [{"name": "ff", "kind": "fifo"}])
            s["feed"] = {"name": "ff", "data": d, "cuts": cuts}
            if any(y["at"] == "open" and y["act"] == "err" for y in f):
                s["faults"] = [y for y in f if y["at"] != "open"]
            return s
        if x < 0.85:
            p = r.choice(self.special)
            return self.base([[{"fn": "read", "path": p, "dest": p, "wantfile": p, "env": "ok"}]], f, [])
        if x < 0.93:
            return self.base([[{"fn": "read", "path": "f1", "dest": "f1", "env": "open"}]], f,
                             [{"name": "f1", "kind": "absent"}])
        return self.base([[{"fn": "read", "path": "sub", "dest": "sub", "env": "file"}]], f,
                         [{"name": "sub", "kind": "dir"}])

    def model(self, rec):
        """A history of FilesImpl on the real code."""
        r = self.r
        h = rec["h"]
        n = max(x["p"] for x in h)
        pre = [{"name": "f1", "kind": "file", "data": [r.choice((0, 50, 5000)), 5]} if rec["i"] == "old" else
               {"name": "f1", "kind": "absent"}]
        small = r.random() < 0.5
        procs, faults = [], []
        for p in range(1, n + 1):
            procs.append([{"fn": "important", "path": "f1", "dest": "f1", "env": "ok",
                           "data": [r.choice((1, 60) if small else (4096, 9000)), 10 + p]}])
        for x in h:
            if x["act"] in ("err", "kill", "decoy"):
                f = {"p": x["p"], "at": x["at"], "nth": 1, "act": x["act"]}
                if x["act"] == "err":
                    f["errno"] = r.choice([e for e in ERR[x["at"]] if e != "EINTR"])
                    f["sticky"] = 1
                if x["act"] == "decoy":
                    f["kind"] = "hard"
                faults.append(f)
        s = self.base(procs, faults, pre)
        s["sched"] = [x["p"] for x in h]
        if n > 1 and r.random() < 0.3 and not any(f["act"] == "kill" for f in faults):
            s["threads"] = 1
        return s


def run(ctx):
    g = Gen(ctx.rng, ctx.thorough)
    g.special = [p for p in ("/proc/version", "/proc/filesystems", "/proc/devices", "/dev/null", "/proc/cmdline")
                 if os.access(p, os.R_OK)]
    pid = ctx.pid
    os.makedirs(ctx.path("scratch"), exist_ok=True)
    with ThreadPoolExecutor(4) as ex:
        fb = ex.submit(core.build, ctx, "files", ["files_drv.cc"],
                       driver_flags=["-O2"], only=r"/(files|guid|status|strings|not_null|check|random|rtti)/")
        scr = []
        if pid != "F04":
            fm = [ex.submit(core.model_check, ctx, "FilesImpl", IMPL % c, workers=1,
                            what="%d writers, %d faults" % c)
                  for c in ((1, 3), (2, 2 if ctx.thorough else 1))]
            for f, cap in zip(fm, (10**9, 10**9 if ctx.thorough else 450)):
                hs = core.parse_printed(f.result().out, "@H")
                if len(hs) > cap:
                    hs = ctx.rng.sample(hs, cap)
                scr += [g.model(h) for h in hs]
        exe = fb.result()
    kw = dict(consts='CONSTANT Id = "%s"' % pid, extra=[ctx.path("scratch")])
    if scr:
        core.conformance(ctx, exe, scr, "FilesTrace", what="histories of FilesImpl", **kw)
    m = 20 if ctx.thorough else 1
    gens = {"F01": lambda: g.important(),
            "F02": lambda: g.important(many=g.r.random() < 0.3) if g.r.random() < 0.5 else g.write(),
            "F03": lambda: g.important(readers=False),
            "F04": lambda: g.read() if g.r.random() < 0.9 else g.important()}
    # Big files one page at a time take too long under the tracer.
    def ok(s):
        big = any(isinstance(o.get(k), list) and o[k][0] > 300000
                  for o in s["pre"] + [c for p in s["procs"] for c in p] + [s.get("feed", {})] for k in ("data", "want"))
        slow = any(f["act"] == "size" and f["n"] < 100000 or f.get("sticky") and f["act"] == "short" for f in s["faults"])
        return not (big and slow)

    scr = [gens[pid]() for _ in range((800 if pid == "F04" else 600) * m)]
    scr = [s for s in scr if ok(s)]
    for a in range(0, len(scr), 4000):
        core.conformance(ctx, exe, scr[a:a + 4000], "FilesTrace", what="random calls and faults", **kw)
