#!/bin/bash
# check.sh PROPERTY [quick|thorough]
export HOME=/root PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 MPLBACKEND=Agg MPLCONFIGDIR=/opt/mplconfig LC_ALL=C.UTF-8
export OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1
unset PYTHONPATH
cd "$(dirname "$0")" || exit 2
exec /opt/venv/bin/python symx/check.py "$1" --tier "${2:-quick}" "${@:3}"
