#!/bin/bash
# Builds everything the checks need from the committed files (each check does so again itself).
set -eu
cd "$(dirname "$0")"
. tools/env.sh
build_sim
if [ -d pyext ]; then build_py; fi
