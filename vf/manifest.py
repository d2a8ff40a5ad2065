"""Regenerates MANIFEST.json: python3 -m vf.manifest"""
import json
import os

from .core import VERIF

TLA = "TLA+ specification checked with TLC; "
NOTE_SEQ = ("TLC explores the specification exhaustively in a small scope; every edge of that "
            "state graph plus seeded random walks in a larger scope are replayed on the real code "
            "(address/UB sanitizers, assertions on) and every recorded trace is validated by TLC. "
            "Assumes the driver reports what the public API returned.")
NOTE_POOL = ("Seeded random client programs run on the real pool, real threads serialised by a "
             "controlled scheduler that decides every pre-emption (random and PCT, before each "
             "synchronisation call and optionally each memory access), the virtual clock, expiry "
             "and spurious wake-ups; TLC decides whether each recorded trace is a behaviour of "
             "the specification. Bounds: programs of up to 4 clients and ~40 tasks, sampled "
             "schedules, sequentially consistent memory.")
CLAIMS = json.load(open(os.path.join(VERIF, "vf", "claims.json")))


def main():
    ids = [json.loads(l)["id"] for l in open(os.path.join(VERIF, "properties.jsonl"))]
    mods = json.load(open(os.path.join(VERIF, "vf", "checks.json")))
    checks, na = [], []
    for i in ids:
        if i in mods and i in CLAIMS:
            c = CLAIMS[i]
            checks.append({
                "property": i,
                "quick_cmd": "./check %s quick" % i,
                "thorough_cmd": "./check %s thorough" % i,
                "evidence_file": "evidence/%s.json" % i,
                "technique": TLA + c["technique"],
                "level": c.get("level", "model_checking"),
                "level_note": {"pool": NOTE_POOL, "seq": NOTE_SEQ}.get(c.get("note", "seq"), c.get("note")),
            })
        else:
            na.append({"property": i, "reason": CLAIMS.get(i, {}).get("na", "check under construction")})
    m = {"version": 1, "setup_cmd": "python3 -m vf.setup", "checks": checks, "not_applicable": na}
    with open(os.path.join(VERIF, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")
    print(len(checks), "checks,", len(na), "not claimed")


main()
