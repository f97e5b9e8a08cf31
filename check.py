#!/usr/bin/env python3
"""check.py PROPERTY [quick|thorough] : decide one property on /repo's working tree."""
import os, sys, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
import vlib

if __name__ == "__main__":
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    try:
        rc = vlib.run(prop, tier)
    except Exception:
        traceback.print_exc()
        print("VIOLATION property=%s replay=%s" % (prop, "none"))
        rc = 1
    sys.exit(rc)
