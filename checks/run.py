#!/usr/bin/env python3
"""checks/run.py ID            decide one property (VERIF_TIER, VERIF_SEED)
   checks/run.py --replay FILE  repeat a reported violation exactly
   checks/run.py --setup        build every simulator"""
import os, sys, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import lib, pipe, simos, selfhost, cli, xten

MODULES = [pipe, simos, cli, xten]


def main():
    a = sys.argv[1:]
    if a[:1] == ["--setup"]:
        for m in MODULES:
            m.setup()
        return 0
    if a[:1] == ["--replay"]:
        first = open(a[1], errors="replace").readline()
        for m in MODULES:
            if m.MAGIC in first:
                return m.replay(a[1])
        print("not a replay file")
        return 2
    for m in MODULES:
        if a and a[0] in m.PLAN:
            return m.check(a[0])
    print(__doc__)
    return 2


try:
    rc = main()
except lib.HarnessError as e:
    print("harness error: %s" % e)
    rc = 2
except Exception:
    traceback.print_exc()
    rc = 2
sys.exit(rc)
