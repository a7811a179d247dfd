#!/bin/bash
# check.sh <property> [quick|thorough]: run the monitor of one property
cd "$(dirname "$0")" || exit 2
export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 OPENBLAS_NUM_THREADS=1 OMP_NUM_THREADS=1 LC_ALL=C.UTF-8
PYC=$(mktemp -d)
export PYTHONPYCACHEPREFIX="$PYC"
trap 'rm -rf "$PYC"' EXIT
export VERIF_TIER="${2:-${VERIF_TIER:-quick}}"
export VERIF_SEED="${VERIF_SEED:-1}"
/opt/venv/bin/python -B mon/check.py "$1" --tier "$VERIF_TIER" --seed "$VERIF_SEED" "${@:3}"
rc=$?
exit $rc
