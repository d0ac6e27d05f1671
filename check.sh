#!/bin/bash
# ./check.sh <PROPERTY> [quick|thorough]   |   ./check.sh --replay <file>
here=$(cd "$(dirname "$0")" && pwd)
export PATH=/usr/local/bin:/usr/bin:/bin LANG=C.UTF-8 PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 MPLBACKEND=Agg
export NUMBA_NUM_THREADS=1 OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 MKL_NUM_THREADS=1
export MPLCONFIGDIR=${MPLCONFIGDIR:-/tmp/mc_mplconfig}
unset SCITOPT_SENSITIVITY_MODE
export PYTHONPATH="$here"
if [ -n "$MC_REPO" ]; then export PYTHONPATH="$here:$MC_REPO/scikit-topt"; fi
exec /opt/venv/bin/python -W ignore -c 'import sys; from mc import harness; sys.exit(harness.main(sys.argv[1:]))' "$@"
