#!/bin/bash
# check.sh <property id> [--thorough] [--replay FILE]
cd "$(dirname "$0")" || exit 4
export JAX_ENABLE_X64=1 JAX_PLATFORMS=cpu PYTHONDONTWRITEBYTECODE=1
export PYTHONPATH="${VERIF_REPO:-/repo}:$(pwd)" XLA_FLAGS="--xla_cpu_multi_thread_eigen=false" OMP_NUM_THREADS=2
exec /opt/venv/bin/python -m vlib.main "$@"
