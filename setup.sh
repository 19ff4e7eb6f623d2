#!/bin/bash
# Warms the Go build cache with the drivers and the recorder, from /repo's working tree.  Offline.
cd "$(dirname "$0")" || exit 1
exec python3 - <<'P'
import sys
sys.path.insert(0, ".")
from vlib import common as C
s = C.Scratch("setup")
try:
    C.build_unit(s)
    import os
    if os.path.exists("harness/e2e/main.go"):
        C.build_e2e(s)
    C.tla_classpath()
finally:
    s.close()
P
