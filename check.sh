#!/bin/bash
# check.sh <property id> [obligation...]
cd "$(dirname "$0")"
export PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg JAX_PLATFORMS=cpu CUDA_VISIBLE_DEVICES= TF_CPP_MIN_LOG_LEVEL=3
export PYTHONHASHSEED=0 RAY_USAGE_STATS_ENABLED=0 PYTHONPATH=$PWD
export OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 XLA_FLAGS="--xla_cpu_multi_thread_eigen=false"
MPLCONFIGDIR=$(mktemp -d /tmp/symx_mpl.XXXXXX); export MPLCONFIGDIR
NUMBA_CACHE_DIR=$MPLCONFIGDIR; export NUMBA_CACHE_DIR
/opt/venv/bin/python -m symx.runner "$@"
rc=$?
case "$MPLCONFIGDIR" in /tmp/symx_mpl.*) rm -rf "$MPLCONFIGDIR";; esac
exit $rc
