#!/bin/bash
# usage: check.sh <PROPERTY> <tier> [options]
cd "$(dirname "$0")" || exit 2
export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 PYTHONWARNINGS=ignore
export OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 MKL_NUM_THREADS=1
export PYTHONPATH=/verif
P=$1; T=$2; shift 2
exec /opt/venv/bin/python -m mc.run "$P" --tier "$T" "$@"
