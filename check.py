#!/usr/bin/env python3
"""check.py <PROPERTY> [--tier quick|thorough] [--replay FILE]   |   check.py --setup"""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
os.chdir(os.path.dirname(os.path.abspath(__file__)))
from mon import core


def main():
    a = sys.argv[1:]
    if a and a[0] == "--setup":
        for p in core.build_many(["chk", "rel", "asan", "tsan", "scripted"]).values():
            print("built", p)
        return 0
    pid = a[0]
    if "--replay" in a:
        core.replay(pid, a[a.index("--replay") + 1])
        return 0
    tier = a[a.index("--tier") + 1] if "--tier" in a else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    return core.run_property(pid, tier, seed)


if __name__ == "__main__":
    try:
        rc = main()
    except Exception as e:
        import traceback
        traceback.print_exc()
        print("inconclusive:", e)
        rc = 2
    sys.exit(rc)
