#!/bin/sh
# Builds the clock interposer. Everything else is Python, and imports the code under test from
# /repo's working tree.
set -e
cd "$(dirname "$0")"
mkdir -p build evidence
/opt/venv/bin/python -B - <<'PY'
import sys
sys.path.insert(0, ".")
from fsmon import boot
print(boot.build_clock("build"))
PY
