#!/bin/bash
# check.sh PROPERTY: rebuilds the simulator with /repo's working tree and runs one check.
# Environment: VERIF_SEED (default 1), VERIF_TIER (quick or thorough).
set -u
cd "$(dirname "$0")"
. tools/env.sh
case "$1" in
  C09|C11|C12|C15|C17) build_py || { echo "build failed" >&2; exit 3; }; exec "$PY" -B -X pycache_prefix="$V/.build/pyc" pysim/run.py check "$1" ;;
  *) build_sim || { echo "build failed" >&2; exit 3; }; exec "$SIM" check "$1" ;;
esac
