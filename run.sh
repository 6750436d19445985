#!/bin/bash
# usage: run.sh ID [check.py options]     (cwd-independent)
here="$(cd "$(dirname "$0")" && pwd)"
. /opt/vp/env.sh
export PYTHONPATH="${VERIF_REPO:-/repo}/src:$here${PYTHONPATH:+:$PYTHONPATH}"
export PYTHONDONTWRITEBYTECODE=1
export OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 MKL_NUM_THREADS=1
export XLA_FLAGS="--xla_cpu_multi_thread_eigen=false intra_op_parallelism_threads=1"
cd "$here" || exit 2
exec /opt/venv/bin/python "$here/check.py" "$@"
