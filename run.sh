#!/bin/bash
# ./run.sh <property> [--replay FILE]: explores one property against /repo's working tree.
cd "$(dirname "$0")" || exit 3
unset PYTHONPATH MSKHOME
export PYTHONHASHSEED=0 PYTHONDONTWRITEBYTECODE=1 PYTHONNOUSERSITE=1 OPENBLAS_NUM_THREADS=1 OMP_NUM_THREADS=1 MPLBACKEND=Agg LANG=C.UTF-8 PYTHONUTF8=1
exec /opt/venv/bin/python -W ignore -m mc.main "$@"
