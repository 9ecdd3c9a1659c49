#!/usr/bin/env python3
"""Decides one property of /repo's working tree: check.py C04 [--replay FILE]"""
import json, os, subprocess, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from lib import plans, run


def main():
    prop = sys.argv[1]
    if len(sys.argv) > 3 and sys.argv[2] == "--replay":
        return plans.replay(sys.argv[3])
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    return plans.check(prop, tier, seed)


if __name__ == "__main__":
    sys.exit(main())
