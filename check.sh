#!/bin/bash
# usage: check.sh <property> [quick|thorough] [extra args]
here=$(cd "$(dirname "$0")" && pwd)
. /opt/vp/env.sh
export PYTHONPATH="${MC_REPO:-/repo}:$here"
export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 MPLBACKEND=Agg
export OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 MKL_NUM_THREADS=1 NUMBA_NUM_THREADS=1
prop=$1; tier=${2:-quick}; shift; shift
cd "$here" && exec python -m mc.run "$prop" --tier "$tier" "$@"
