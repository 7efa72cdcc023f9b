import argparse
import os
import sys
import time

from . import core


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1") or 1))
    a = ap.parse_args()
    t0 = time.time()
    try:
        from . import real  # noqa: F401  (import the implementation once, before forking)
    except Exception as e:
        res = core.Result()
        res.violations.append({"clause": "the library cannot be imported", **core.crash_info(e)})
        return core.finish(a.prop, a.tier, a.seed, res, t0, [])
    from .checks import ASSUME, CHECKS

    c = CHECKS[a.prop]
    jobs = []
    for j in c["jobs"]:
        jobs += j(a.tier, a.seed)
    total = core.run_jobs(jobs)
    for act, n in c.get("exhaustive", {}).items():
        if not total.violations and total.actions.get(act) != n:
            total.machinery.append(f"the enumeration is incomplete: {total.actions.get(act)} of {n} {act}")
    return core.finish(a.prop, a.tier, a.seed, total, t0, ASSUME + c.get("assume", []), c.get("extra"))


if __name__ == "__main__":
    sys.exit(main())
