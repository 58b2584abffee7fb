#!/usr/bin/env python3
"""python3 /verif/zv/run.py C04 [--tier thorough]   one check
   python3 /verif/zv/run.py all                     every check"""
import importlib, os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
sys.setrecursionlimit(20000)
from zv import common
from zv.prog import CheckError


def main():
    args = [a for a in sys.argv[1:] if not a.startswith("--")]
    tier = os.environ.get("VERIF_TIER", "quick")
    for a in sys.argv[1:]:
        if a.startswith("--tier="):
            tier = a.split("=", 1)[1]
    if args == ["all"]:
        args = sorted(f[:-3].upper() for f in os.listdir(os.path.join(os.path.dirname(__file__), "checks"))
                      if f.startswith("c") and f.endswith(".py"))
    rc = 0
    for pid in args:
        mod = importlib.import_module("zv.checks." + pid.lower())
        try:
            rc |= common.run_check(pid, mod.check, tier)
        except CheckError as e:
            print("ERROR %s: %s" % (pid, e))
            return 2
    return rc


if __name__ == "__main__":
    sys.exit(main())
