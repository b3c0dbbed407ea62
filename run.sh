#!/bin/bash
# usage: run.sh <property id> <quick|thorough>   or   run.sh replay <file>
here="$(cd "$(dirname "$0")" && pwd)"
export HOME=/root PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 JAX_PLATFORMS=cpu MPLBACKEND=Agg
export XLA_FLAGS="--xla_cpu_multi_thread_eigen=false"
export PYTHONPATH=/repo PYTHONWARNINGS=ignore
exec /opt/venv/bin/python "$here/run.py" "$@"
