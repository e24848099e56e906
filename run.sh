#!/bin/bash
# usage: run.sh <property id> quick|thorough        run a check
#        run.sh <property id> --replay <file>       replay one counterexample on the real code
cd "$(dirname "$0")" || exit 2
export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 TZ=UTC LANG=C.UTF-8 HOME="${HOME:-/root}"
export OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1
unset PYTHONPATH
exec /opt/venv/bin/python -W ignore -m vf.main "$@"
