#!/bin/bash
# bash run.sh <property id> [quick|thorough] | --replay FILE
# Runs the check of one property against the working tree of /repo (override with VERIF_REPO).
here=$(cd "$(dirname "$0")" && pwd)
repo=${VERIF_REPO:-/repo}
export HOME=${HOME:-/root} LANG=C.UTF-8 PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 PYTHONPATH="$repo" MPLBACKEND=Agg
export MKL_THREADING_LAYER=SEQUENTIAL MKL_NUM_THREADS=1 OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 MKL_CBWR=COMPATIBLE
scratch=$(mktemp -d "${TMPDIR:-/tmp}/verif.XXXXXXXX") || exit 3
trap 'rm -rf "$scratch"' EXIT
export MPLCONFIGDIR="$scratch/mpl" VERIF_SCRATCH="$scratch" VERIF_REPO="$repo"
cd "$here" || exit 3
/opt/venv/bin/python -W ignore "$here/check.py" "$@"
exit $?
