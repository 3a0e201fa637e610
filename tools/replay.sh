#!/bin/bash
# replay.sh FILE: runs a replay file against /repo's working tree. Exit 1: the violation shows again.
set -u
f="$(realpath "$1")"
cd "$(dirname "$0")/.."
. tools/env.sh
case "$(basename "$f")" in
  C09*|C11*|C12*|C15*|C17*) build_py || exit 3; exec "$PY" -B -X pycache_prefix="$V/.build/pyc" pysim/run.py replay "$f" ;;
  *) build_sim || exit 3; exec "$SIM" replay "$f" ;;
esac
