#!/bin/bash
# run.sh <ID> quick|thorough | <ID> --replay FILE
cd "$(dirname "$0")" || exit 2
if [ -f /opt/vp/env.sh ]; then . /opt/vp/env.sh; else PY=/opt/venv-pypy/bin/python; fi
export LC_ALL=C.UTF-8 PYTHONUTF8=1 PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0
export OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 HDF5_USE_FILE_LOCKING=FALSE
export PYTHONPATH=/repo/src/python:/repo:/verif
exec "$PY" -B mc/main.py "$@"
