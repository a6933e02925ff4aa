#!/bin/bash
# usage: run.sh <property id> [quick|thorough]   or   run.sh <property id> replay <file>
# Runs one check against the sorcha sources in ${VERIF_REPO:-/repo}/src.
V=$(cd "$(dirname "$0")" && pwd)
R=${VERIF_REPO:-/repo}
MODE=${2:-${VERIF_TIER:-quick}}
PY=/opt/venv/bin/python
SCR=$(mktemp -d "${TMPDIR:-/tmp}/verif-$1-XXXXXX") || exit 2
trap 'rm -rf "$SCR"' EXIT
mkdir -p "$SCR/numba" "$SCR/home" "$SCR/tmp" "$SCR/cfg"
export HOME=$SCR/home TMPDIR=$SCR/tmp XDG_CACHE_HOME=$SCR/home/.cache XDG_CONFIG_HOME=$SCR/cfg
export PYTHONPATH="$R/src:$V" PYTHONDONTWRITEBYTECODE=1 NUMBA_CACHE_DIR=$SCR/numba
export PYTHONHASHSEED=${VERIF_HASHSEED:-0} TZ=UTC MPLBACKEND=Agg LANG=C.UTF-8
export OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 MKL_NUM_THREADS=1 NUMBA_NUM_THREADS=1 NUMEXPR_NUM_THREADS=1
export VERIF_DIR=$V VERIF_REPO=$R VERIF_SCRATCH=$SCR
unset SORCHA_SEED PYTHONSTARTUP
cd "$SCR" || exit 2
"$PY" -W ignore -m mc.main "$1" "$MODE" "${@:3}"
rc=$?
cd /
exit $rc
