#!/bin/bash
# usage: run.sh <property id> <quick|thorough> [--replay FILE]
cd "$(dirname "$0")" || exit 2
export HOME="${HOME:-/root}" LANG="${LANG:-C.UTF-8}"
export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 MPLBACKEND=Agg
export MPLCONFIGDIR="${TMPDIR:-/tmp}/rv-mpl.$$"
export OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 MKL_NUM_THREADS=1
unset PYTHONPATH
[ -n "$RV_REPO" ] && export PYTHONPATH="$RV_REPO"
PY=/opt/venv/bin/python
[ -x "$PY" ] || PY=python3
mkdir -p "$MPLCONFIGDIR"
"$PY" -W ignore -m rv.run "$@"
rc=$?
case "$MPLCONFIGDIR" in */rv-mpl.*) rm -rf "$MPLCONFIGDIR";; esac
exit $rc
