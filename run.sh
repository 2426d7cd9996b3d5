#!/bin/bash
# run.sh <check-script-basename> <tier>: runs one check against /repo's current working tree
cd "$(dirname "$0")" || exit 2
export PYTHONHASHSEED="${VERIF_HASHSEED:-0}" PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg LANG=C.UTF-8 PYTHONUNBUFFERED=1
export PYTHONPATH="${VERIF_REPO:-/repo}:$PWD/lib" OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1
unset PYTHONHOME
export VERIF_TIER="${2:-${VERIF_TIER:-quick}}"
exec /opt/venv/bin/python -W ignore "checks/$1.py" --tier "$VERIF_TIER"
