#!/bin/bash
# bash check.sh C01 [quick|thorough]      run one property's check
# bash check.sh replay FILE               replay a recorded violation
# Everything it writes, apart from evidence/ and replays/, lies in one scratch
# directory that is removed at the end.
cd "$(dirname "$(readlink -f "$0")")" || exit 2
PY=/opt/venv/bin/python
SCRATCH=$(mktemp -d "${TMPDIR:-/tmp}/dst.XXXXXXXX") || exit 2
cleanup() { case "$SCRATCH" in */dst.????????) rm -rf "$SCRATCH";; esac; }
trap cleanup EXIT
trap 'exit 2' INT TERM
gcc -O2 -U_FORTIFY_SOURCE -shared -fPIC -o "$SCRATCH/faultio.so" \
    dst/shim/faultio.c -ldl || { echo "cannot build the shim" >&2; exit 2; }
export DST_SCRATCH=$SCRATCH DST_SHIM=$SCRATCH/faultio.so
export NUMBA_CACHE_DIR=$SCRATCH/numba PYTHONPYCACHEPREFIX=$SCRATCH/pyc
export PYTHONHASHSEED=0 PYTHONPATH=$PWD PYTHONNOUSERSITE=1
export NUMBA_NUM_THREADS=1 NUMBA_THREADING_LAYER=workqueue
# kernels: same code, less time in the compiler
export NUMBA_OPT=0
export OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 MKL_NUM_THREADS=1
export PYTHONWARNINGS=ignore
unset PYTHONSTARTUP
if [ "$1" = replay ]; then
    "$PY" -m dst.engine replay "$(readlink -f "$2")"
elif [ "$1" = case ]; then
    "$PY" -m dst.engine case "$2" "$3"
else
    "$PY" -m dst.engine check "$1" "${2:-${VERIF_TIER:-quick}}"
fi
exit $?
