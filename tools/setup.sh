#!/bin/sh
# builds everything the checks need
cd "$(dirname "$0")/.." && exec python3 - <<'P'
import sys
sys.path.insert(0, "tools")
import lib, models
lib.build_java()
lib.model()
models.cases()
for p in ("debug", "release"):
    lib.build_harness(p, ("interp", "wipe"))
P
