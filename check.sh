#!/bin/bash
# usage: check.sh <property id> [quick|thorough]     or: check.sh replay <file>
# Runs one property check against /repo's current working tree.
here="$(cd "$(dirname "$0")" && pwd)"
export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 MPLBACKEND=Agg
export OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 MKL_NUM_THREADS=1
py=/opt/venv/bin/python
[ -x "$py" ] || py=python3
exec "$py" -B "$here/vp/main.py" "$@"
