#!/bin/bash
# run.sh <property id> quick|thorough|replay [file]
# run.sh selftest
here="$(cd "$(dirname "$0")" && pwd)"
export PYTHONHASHSEED=0 PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg
export OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 MKL_NUM_THREADS=1
export VERIF_SEED="${VERIF_SEED:-1}"
exec /opt/venv/bin/python -B "$here/hrv/run.py" "$@"
