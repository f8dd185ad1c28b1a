#!/bin/bash
# run.sh <property> [quick|thorough] [--replay FILE]
cd "$(dirname "$(readlink -f "$0")")" || exit 2
export PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 PYTHONHASHSEED=0
# arrays come from the heap and stay there: no page faults at each of them
export MALLOC_TRIM_THRESHOLD_=2000000000 MALLOC_MMAP_THRESHOLD_=2000000000
exec /opt/venv/bin/python -W ignore run.py "$@"
