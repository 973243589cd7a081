#!/bin/bash
# run_check.sh PROPERTY [options]: one simulated batch (or --replay FILE)
cd "$(dirname "$0")" || exit 2
export PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 MKL_NUM_THREADS=1
export PYTHONHASHSEED=${DST_HASHSEED:-0} LANG=C.UTF-8 TZ=UTC
export PYTHONPATH="$PWD${DST_REPO:+:$DST_REPO}"
[ -e build/iofault.so ] || bash setup.sh >&2 || exit 2
export DST_SHIM="$PWD/build/iofault.so"
LD_PRELOAD="$DST_SHIM" exec /opt/venv/bin/python -m dst.core "$@"
