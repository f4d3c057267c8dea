#!/bin/bash
# check.sh PROPERTY quick|thorough | check.sh PROPERTY replay FILE
# Runs the explorer on /repo's working tree.  -B and a fresh pycache prefix: no
# stale byte code is read and none is written.
cd "$(dirname "$0")" || exit 2
export PYTHONPYCACHEPREFIX="$(mktemp -d)" PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0
export OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 MKL_NUM_THREADS=1
/opt/pypyvenv/bin/python -B run.py "$@"
rc=$?
rmdir "$PYTHONPYCACHEPREFIX" 2>/dev/null || rm -rf "$PYTHONPYCACHEPREFIX"
exit $rc
