#!/usr/bin/env python3
"""check.py <property> [--replay FILE]: decides one property on /repo's working tree."""
import json, os, sys, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from vlib import common as C, engine, registry


def main():
    pid = sys.argv[1]
    only = None
    if "--thorough" in sys.argv:
        C.TIER, C.THOROUGH = "thorough", True
    if "--replay" in sys.argv:
        only = json.load(open(sys.argv[sys.argv.index("--replay") + 1]))
        C.SEED, C.TIER = only["seed"], only["tier"]
        C.THOROUGH = C.TIER == "thorough"
    try:
        rc = registry.run(pid, only)
    except C.MachineryError as e:
        print(f"MACHINERY: {pid}: {e}", flush=True)
        rc = 2
    except Exception:
        traceback.print_exc()
        rc = 2
    sys.exit(rc)


main()
