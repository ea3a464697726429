#!/bin/bash
# check.sh PROPERTY [quick|thorough] [runner options]
cd "$(dirname "$0")" || exit 2
PY=/opt/venv/bin/python
export PYTHONHASHSEED=0 MPLBACKEND=Agg OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 PYTHONDONTWRITEBYTECODE=1
export MPLCONFIGDIR=${TMPDIR:-/tmp}/vsym_mpl HOME=${HOME:-/root}
mkdir -p "$MPLCONFIGDIR"
export PYTHONWARNINGS=ignore
export PYTHONPATH="$PWD:${VSYM_REPO:-/repo}"
P=$1; T=${2:-quick}; shift 2
exec "$PY" -m vsym.runner "$P" --tier "$T" "$@"
