#!/bin/bash
# usage: run.sh <PROPERTY> [quick|thorough]   |   run.sh replay <file>
cd "$(dirname "$0")" || exit 2
export JAX_PLATFORMS=cpu PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0
export OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 XLA_FLAGS="--xla_cpu_multi_thread_eigen=false intra_op_parallelism_threads=1"
export FMMAX_SRC="${FMMAX_SRC:-/repo/src}"
exec /opt/venv/bin/python -B -m symfm.main "$@"
