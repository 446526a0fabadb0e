#!/bin/bash
# usage: check.sh <property> [quick|thorough] [--only=substr] [-v]
cd "$(dirname "$0")" || exit 2
export PYTHONUTF8=1 PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 HDF5_USE_FILE_LOCKING=FALSE
exec /opt/venv/bin/python -m engine.runner "$@"
