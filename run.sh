#!/bin/bash
# usage: run.sh <property id> [quick|thorough] [--replay FILE]
here="$(cd "$(dirname "$0")" && pwd)"
export VERIF_SEED="${VERIF_SEED:-1}"
prop="$1"; shift
case "${1:-}" in quick|thorough) export VERIF_TIER="$1"; shift;; esac
export VERIF_TIER="${VERIF_TIER:-quick}"
export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED="${PYTHONHASHSEED:-0}" MPLBACKEND=Agg
export OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 MKL_NUM_THREADS=1 NUMBA_NUM_THREADS=1
export GPYV_HOME="$here" GPYV_REPO="${GPYV_REPO:-/repo}"
export PYTHONPATH="$GPYV_REPO:$here"
cd "$here"
exec /opt/venv/bin/python -W ignore -m gpyv.run "$prop" "$@"
