#!/bin/bash
# bash run.sh <PROPERTY> [--tier quick|thorough] [--replay FILE] [--calibrate]
# Runs one property check against the working tree of /repo.
cd "$(dirname "$0")" || exit 2
export HOME=/root MPLBACKEND=Agg PYTHONNOUSERSITE=1 PYTHONHASHSEED=0
export PYTHONDONTWRITEBYTECODE=1 PYTHONUTF8=1
export HYPOTHESIS_STORAGE_DIRECTORY=/tmp/verif-hypothesis
export OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 MKL_NUM_THREADS=1
exec /opt/venv/bin/python -m harness "$@"
