#!/bin/bash
# usage: run.sh C07 [quick|thorough] [--replay file]
cd "$(dirname "$0")" || exit 2
export TQDM_DISABLE=1 PYTHONHASHSEED=0 PYTHONDONTWRITEBYTECODE=1
export OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 MKL_NUM_THREADS=1
export PYTHONPYCACHEPREFIX=/nonexistent-pycache
PY=/opt/venv/bin/python
[ -x "$PY" ] || PY=python3
exec "$PY" -B -m mc.main "$@"
