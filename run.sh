#!/bin/bash
# run.sh <property> [--replay FILE] : explore one property on /repo's working tree
cd "$(dirname "$0")" || exit 2
export PYTHONPATH=/repo/src:$PWD PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0
export OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 MALLOC_ARENA_MAX=2
exec /opt/venv/bin/python -m mc.engine "$@"
