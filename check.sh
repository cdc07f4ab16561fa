#!/bin/bash
# usage: check.sh <property-id> [--tier quick|thorough] [--replay FILE] ...
here="$(cd "$(dirname "$0")" && pwd)"
export PYTHONHASHSEED=0 PYTHONDONTWRITEBYTECODE=1
export NUMBA_OPT="${NUMBA_OPT:-0}" NUMBA_NUM_THREADS=1
export OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 MKL_NUM_THREADS=1 MPLBACKEND=Agg
py=/opt/venv/bin/python
[ -x "$py" ] || py=python3
exec "$py" -W ignore "$here/check.py" "$@"
