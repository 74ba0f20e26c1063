#!/bin/bash
# check.sh <property> [quick|thorough]     run a check
# check.sh replay <file>                   re-execute a recorded failure
here="$(cd "$(dirname "$0")" && pwd)"
export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0
export OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 MKL_NUM_THREADS=1
py=/opt/venv/bin/python
[ -x "$py" ] || py=python3
exec "$py" "$here/sim/main.py" "$@"
