#!/usr/bin/env python3
"""check.py PROPERTY TIER: decides one property for the code in /repo."""
import json, os, shutil, sys, time, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from vlib import *
import parts

LEVEL = {}


def known(prop):
    """Findings of this property that are listed: identifiers of what fails."""
    ret = []
    f = os.path.join(ROOT, "known-findings.txt")
    if os.path.exists(f):
        for l in open(f):
            l = l.strip()
            if l.startswith("finding: property=%s " % prop):
                ret.append(l.split(" ", 2)[2])
    return ret


def main():
    prop, tier = sys.argv[1], sys.argv[2]
    if tier not in ("quick", "thorough"):
        raise SystemExit("tier?")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    t0 = time.time()
    w = Work()
    try:
        r = parts.run(w, prop, tier, seed, t0)
    except Broken as b:
        log("BROKEN:", b)
        return 3
    finally:
        w.close()
    rep = os.path.join(EVID, "replay")
    os.makedirs(rep, exist_ok=True)
    for f in os.listdir(rep):
        if f.startswith(prop + "-"):
            os.remove(os.path.join(rep, f))
    listed = known(prop)
    new, old = [], set()
    for v in r.violations:
        k = [x for x in listed if x == v.get("finding")]
        if k:
            old.add(k[0])
        else:
            new.append(v)
    for k in sorted(old):
        print("KNOWN-FINDING: property=%s %s" % (prop, k))
    for i, v in enumerate(new[:5]):
        f = os.path.join(rep, "%s-%d.json" % (prop, i))
        with open(f, "w") as fd:
            json.dump(v, fd, indent=1)
        print("VIOLATION property=%s replay=%s" % (prop, f))
        print("  " + str(v.get("why", ""))[:600])
    if len(new) > 5:
        print("  and %d more" % (len(new) - 5))
    os.makedirs(EVID, exist_ok=True)
    with open(os.path.join(EVID, prop + ".json"), "w") as fd:
        json.dump({"property": prop, "tier": tier, "seed": seed, "level": parts.LEVELS[prop], "coverage": r.coverage(parts.LEVELS[prop]),
                   "assumptions": parts.ASSUME.get(prop, parts.ASSUME["*"]), "wall_s": round(time.time() - t0, 1), "violations": len(new)}, fd, indent=1)
    return 1 if new else 0


if __name__ == "__main__":
    try:
        rc = main()
    except SystemExit:
        raise
    except BaseException:
        traceback.print_exc()
        rc = 3
    sys.stdout.flush()
    sys.exit(rc)
