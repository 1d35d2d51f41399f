#!/usr/bin/env python3
"""check.py <property> [--thorough]: decides one property on /repo's current sources.

exit 0: nothing found (KNOWN-FINDING lines for the listed ones); exit 1: VIOLATION line; exit 2: the analysis itself broke
"""
import json
import os
import sys
import time

VERIF = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, VERIF)
sys.setrecursionlimit(20000)


def known():
    out = {}
    p = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(p):
        for line in open(p):
            if line.startswith("known: "):
                head, _, what = line[7:].partition(" :: ")
                d = dict(x.split("=", 1) for x in head.split(" ", 1))
                out[(d["property"], d["key"].strip())] = what.strip()
    return out


def main():
    from sa import props, project
    pid = sys.argv[1]
    tier = "thorough" if "--thorough" in sys.argv or os.environ.get("VERIF_TIER") == "thorough" else "quick"
    t = time.time()
    try:
        ctx = props.run(pid, tier)
    except project.ToolError as x:
        print("analysis broken:", x)
        return 2
    kn = known()
    seen = set()
    n = 0
    os.makedirs(os.path.join(VERIF, "out"), exist_ok=True)
    for v in ctx.violations:
        if v["key"] in seen:
            continue
        seen.add(v["key"])
        if (pid, v["key"]) in kn:
            print(f"KNOWN-FINDING: property={pid} {kn[(pid, v['key'])]} [{v['key']}]")
            continue
        n += 1
        rp = os.path.join(VERIF, "out", f"{pid}-{n}.json")
        json.dump(dict(property=pid, **v), open(rp, "w"), indent=1)
        print(f"VIOLATION property={pid} replay={rp}")
        print(f"  {v['where']}: {v['key']}: {v['msg']}")
    wall = time.time() - t
    cov = ctx.coverage()
    ev = dict(property=pid, tier=tier, seed=int(os.environ.get("VERIF_SEED", "1")), level="other", coverage=cov,
              assumptions=ctx.assumptions, wall_s=round(wall, 2), violations=n)
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    json.dump(ev, open(os.path.join(VERIF, "evidence", pid + ".json"), "w"), indent=1)
    print(f"{pid}: {cov['obligations']} obligations, {cov['discharged']} discharged, {cov['undecided']} undecided, "
          f"{n} violations, {wall:.1f} s")
    if n:
        return 1
    for e in ctx.broken:
        print("analysis broken:", e)
    return 2 if ctx.broken else 0


if __name__ == "__main__":
    try:
        rc = main()
    except Exception:  # noqa: BLE001  the analysis broke: never a verdict
        import traceback
        traceback.print_exc()
        rc = 2
    sys.stdout.flush()
    os._exit(rc)
