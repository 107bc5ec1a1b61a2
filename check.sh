#!/bin/sh
# check.sh <property> [--tier quick|thorough] [-v] | --replay FILE
cd "$(dirname "$0")" || exit 0
exec env PYTHONDONTWRITEBYTECODE=1 OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 PYTHONHASHSEED=0 /opt/venv/bin/python -m pv.harness "$@"
