#!/bin/bash
# check.sh <property>: rebuilds the code under test from /repo and decides the property by seeded simulation.
# VERIF_SEED chooses the runs, VERIF_TIER=thorough the deep search.
HERE=$(cd "$(dirname "$0")" && pwd)
export VSIM_HOME=$HERE
cd "$HERE" || exit 2
T=${VSIM_TARGET:-$HERE/target}
mkdir -p "$T"
exec 9>"$T/.lock"
flock 9
bash "$HERE/build.sh" 9>&- || { echo "build failed" >&2; exit 2; }
flock -u 9
exec 9>&-
exec "$T/harness/release/vsim" check "$1"
