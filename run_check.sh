#!/bin/bash
# usage: bash run_check.sh <ID> quick|thorough|replay [file]
# Nothing to build: pvfactors is pure Python and is imported straight from
# /repo's working tree in a fresh interpreter.
cd "$(dirname "$(readlink -f "$0")")" || exit 3
export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 MPLBACKEND=Agg
export MPLCONFIGDIR="${MPLCONFIGDIR:-$PWD/evidence/mpl}"
export OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 MKL_NUM_THREADS=1
unset PYTHONPATH PYTHONHOME
mkdir -p "$MPLCONFIGDIR" evidence/replay
exec /opt/venv/bin/python -W ignore -m harness.run "$@"
