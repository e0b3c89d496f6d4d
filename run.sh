#!/bin/bash
# run.sh <property> <quick|thorough> [--case '<case>']: rebuild from /repo's working tree, then decide the property.
. "$(dirname "$0")/env.sh"
cd /verif/mc || exit 2
log=$(cargo build --offline --locked 2>&1) || { echo "$log" | grep -E '^error' -A12 | head -60; echo "build failed"; exit 2; }
cd /verif || exit 2
exec /verif/target/debug/mentat-mc "$@"
