#!/bin/bash
# Builds the conformance driver and the two programs of /repo into build/ (the checks do so as well when needed).
set -e
cd "$(dirname "$0")"
mkdir -p build evidence
python3 - <<'PY'
import sys
sys.path.insert(0, "lib")
sys.dont_write_bytecode = True
import core
core.build_harness()
core.build_bins()
PY
