#!/usr/bin/env python3
"""check.py <property>: decides one property of the code in /repo by running it under monitors.
VERIF_SEED seeds every random choice, VERIF_TIER is quick or thorough."""
import importlib, os, sys, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
from vlib import build, mon, registry


def main():
    pid = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if len(sys.argv) > 2:
        tier = sys.argv[2]
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    fn, rule, assumptions = registry.REG[pid]
    m, f = fn.split(":")
    c = mon.Check(pid, tier, seed, rule)
    try:
        getattr(importlib.import_module("vlib." + m), f)(c)
        for n in c.notes:
            print("note: %s" % (n,))
        return c.finish(assumptions)
    except build.HarnessError as e:
        if c.violations:
            return c.finish(assumptions)
        print("HARNESS-ERROR: %s" % e)
        return 2
    except Exception:
        traceback.print_exc()
        if c.violations:
            return c.finish(assumptions)
        return 2


sys.exit(main())
