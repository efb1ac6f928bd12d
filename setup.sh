#!/bin/bash
# Compiles the TLC operator overrides and warms the harness builds.
set -e
cd "$(dirname "$0")"
python3 - <<'PY'
import sys
sys.argv = ["check.py", "setup"]
sys.path.insert(0, ".")
import check
check.build_java()
for f in ("arch", ""):
    check.build_harness("harness", f, "release")
PY
