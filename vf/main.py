import importlib
import json
import os
import sys
import time
import traceback

from . import core


def main():
    pid = sys.argv[1]
    mods = json.load(open(os.path.join(core.VERIF, "vf", "checks.json")))
    ctx = core.Ctx(pid)
    evdir = os.path.join(core.VERIF, "evidence")
    os.makedirs(evdir, exist_ok=True)
    evf = os.path.join(evdir, pid + ".json")
    rc = 2
    try:
        m = importlib.import_module("vf.checks." + mods[pid])
        m.run(ctx)
        rc = 1 if ctx.violations else 0
    except core.CheckError as e:
        print("CHECK ERROR:", e)
        rc = 1 if ctx.violations else 2
    except Exception:
        traceback.print_exc()
        rc = 1 if ctx.violations else 2
    finally:
        if os.environ.get("VF_KEEP"):
            print("kept", ctx.work)
        else:
            ctx.cleanup()
    for k in ctx.known:
        print("KNOWN-FINDING: property=%s %s" % (pid, k))
    ev = {"property": pid, "tier": ctx.tier, "seed": ctx.seed, "level": ctx.level,
          "coverage": ctx.cov, "assumptions": ctx.assumptions,
          "wall_s": round(time.time() - ctx.t0, 2), "violations": len(ctx.violations)}
    with open(evf, "w") as f:
        json.dump(ev, f, indent=1)
    if ctx.violations:
        d = os.path.join(core.VERIF, "out", "replay")
        os.makedirs(d, exist_ok=True)
        for n, (summary, rep) in enumerate(ctx.violations):
            p = os.path.join(d, "%s-%d.json" % (pid, n))
            with open(p, "w") as f:
                json.dump({"summary": summary, **rep}, f, indent=1)
            print(summary[:1500])
            print("VIOLATION property=%s replay=%s" % (pid, p))
            if n >= 4:
                break
    elif rc == 0:
        print("OK property=%s tier=%s wall=%.1fs states=%s traces=%s" % (
            pid, ctx.tier, time.time() - ctx.t0, ctx.cov.get("states"),
            ctx.cov.get("traces_validated_against_impl")))
    sys.stdout.flush()
    sys.exit(rc)


main()
