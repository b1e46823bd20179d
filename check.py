#!/usr/bin/env python3
"""check.py PROPERTY [--tier quick|thorough] [--seed N]

Decides one property on /repo's current tree:
  1. TLC explores the models of the property (spec/models) and prints their behaviours,
  2. these and seeded random ones are turned into scenarios which the harness replays on the real code,
  3. TLC checks the recorded traces against the specification (spec/Trace.tla).
"""
import argparse
import json
import os
import subprocess
import sys
import time

ROOT = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(ROOT, "mbt"))
import engine  # noqa: E402
import plans  # noqa: E402


def main():
    a = argparse.ArgumentParser()
    a.add_argument("property")
    a.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"), choices=["quick", "thorough"])
    a.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1")))
    a.add_argument("--show", type=int, default=5)
    o = a.parse_args()
    t0 = time.time()
    P = lambda n: os.environ.get("CHECK_TIMES") and print("%6.1f %s" % (time.time() - t0, n))
    run = engine.Run(o.property, o.tier, o.seed)
    plan = plans.PLANS[o.property]
    P("built")
    plan.generate(run)
    P("generated")
    run.execute()
    P("executed")
    run.judge()
    P("judged")
    if not run.quick:
        run.defined()
        P("judged again")
    for f in plan.extra:
        f(run)
    bad = [d for d in run.devs if plan.counts(d)]
    known = engine.known_findings(o.property)
    new, seen = [], {}
    for d in bad:
        k = next((k for k in known if engine.matches(k, d)), None)
        if k is None:
            new.append(d)
        else:
            seen.setdefault(k["id"], (k, d))
    for k, d in seen.values():
        print("KNOWN-FINDING: property=%s %s" % (o.property, k["what"]))
    other = len(run.devs) - len(bad)
    if other:
        print("note: %d deviations that belong to other properties" % other)
    run.evidence(plan, time.time() - t0, len(seen))
    if new:
        path = run.replay_file(new)
        for d in new[:o.show]:
            print("  " + json.dumps({k: v for k, v in d.items() if k != "dev"}))
        print("VIOLATION property=%s replay=%s" % (o.property, path))
        return 1
    print("%s %s: %d scenarios, %d events, %d model states: ok (%.1fs)" % (
        o.property, o.tier, run.nscen, run.nevents, run.model_states, time.time() - t0))
    return 0


if __name__ == "__main__":
    sys.exit(main())
