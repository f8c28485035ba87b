#!/usr/bin/env python3
"""Runs the check of one property:  run.py Cxx quick|thorough     (run.py setup checks the tools)"""
import os, sys, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)) + "/lib")
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vt
from checks import registry


def main():
    what = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else "quick"
    try:
        if what == "setup":
            return registry.setup()
        return registry.run(what, tier)
    except vt.CheckError as e:
        print(f"ERROR property={what}: {e}", flush=True)
        return 2
    except Exception:
        traceback.print_exc()
        return 2


if __name__ == "__main__":
    sys.exit(main())
