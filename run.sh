#!/bin/bash
# usage: run.sh <PROPERTY-ID> [--replay FILE]
cd "$(dirname "$0")" || exit 3
export HOME="${HOME:-/root}" LANG="${LANG:-C.UTF-8}" PYTHONDONTWRITEBYTECODE=1 \
  PYTHONHASHSEED=0 MPLBACKEND=Agg NUMBA_BOUNDSCHECK=1 OMP_NUM_THREADS=1 \
  OPENBLAS_NUM_THREADS=1 MKL_NUM_THREADS=1
VERIF_SCRATCH_DIR=$(mktemp -d -t defdap-verif-XXXXXX) || exit 3
export VERIF_SCRATCH_DIR
trap 'rm -rf -- "$VERIF_SCRATCH_DIR"' EXIT
/opt/venv/bin/python -B -s lib/main.py "$@"
rc=$?
if [ ! -e "$VERIF_SCRATCH_DIR/done" ] && [ $rc -eq 1 ]; then
  # ended by the watchdog: one case did not finish
  replay=$3
  if [ -e "$VERIF_SCRATCH_DIR/current.pkl" ]; then
    mkdir -p replays
    replay=$PWD/replays/$1-hang.pkl
    cp -- "$VERIF_SCRATCH_DIR/current.pkl" "$replay"
  fi
  echo "the case did not finish"
  echo "VIOLATION property=$1 replay=$replay"
fi
exit $rc
