#!/usr/bin/env python3
"""python3 run.py PROPERTY [--tier quick|thorough]   (exit 0 held, 1 VIOLATION, 2 analysis broken)"""
import os
import sys
sys.dont_write_bytecode = True
sys.setrecursionlimit(20000)
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from kstat.check import run_property
from kstat.rules import REGISTRY


def main():
    args = [a for a in sys.argv[1:] if not a.startswith("--")]
    tier = os.environ.get("VERIF_TIER", "quick")
    for a in sys.argv[1:]:
        if a.startswith("--tier="):
            tier = a.split("=", 1)[1]
    if "--list" in sys.argv:
        print(" ".join(sorted(REGISTRY)))
        return 0
    if args == ["all"]:
        args = sorted(REGISTRY)
    rc = 0
    for pid in args:
        if pid not in REGISTRY:
            print(f"unknown property {pid}")
            return 2
        r = run_property(pid, REGISTRY[pid], tier)
        rc = max(rc, r) if not (r == 1 or rc == 1) else 1
    return rc


if __name__ == "__main__":
    sys.exit(main())
