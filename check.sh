#!/bin/bash
# usage: check.sh <property id> [quick|thorough] [--replay FILE]
# Runs the bounded exhaustive exploration of one property against /repo's
# current working tree.  Nothing is cached between runs: numba and bytecode
# caches live in a scratch directory that is removed at the end.
here=$(cd "$(dirname "$0")" && pwd)
id=${1:?property id}; shift
tier=${VERIF_TIER:-quick}
case "${1:-}" in quick|thorough) tier=$1; shift;; esac
scratch=$(mktemp -d) || exit 2
trap 'rm -rf "$scratch"' EXIT
export VERIF_TIER=$tier VERIF_SEED=${VERIF_SEED:-1} VERIF_SCRATCH=$scratch
export PYTHONDONTWRITEBYTECODE=1 PYTHONPYCACHEPREFIX=$scratch/pyc NUMBA_CACHE_DIR=$scratch/numba
export PYTHONHASHSEED=0 MPLBACKEND=Agg OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 MKL_NUM_THREADS=1
export NUMBA_THREADING_LAYER=workqueue NUMBA_NUM_THREADS=${MC_THREADS:-1}
unset QS_CACHE_TDHO
cd "$scratch" || exit 2
PYTHONPATH=$here:/repo /opt/venv/bin/python -B -m mc.run "$id" "$@"
exit $?
