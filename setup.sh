#!/bin/bash
# nothing to build: the checks interpret /repo's Python sources directly
cd "$(dirname "$0")" || exit 1
mkdir -p evidence
exec /opt/venv/bin/python - <<'PY'
import sys
sys.path.append("/opt/veriftools/pyvenv/lib/python3.12/site-packages")
import numpy, z3
print("numpy", numpy.__version__, "z3", z3.get_version_string())
PY
