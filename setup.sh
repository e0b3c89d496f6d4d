#!/bin/bash
# Builds the checker (and the crates of /repo it links) into /verif/target. Offline.
. "$(dirname "$0")/env.sh"
cd /verif/mc || exit 2
cargo build --offline --locked 2>&1 | grep -vE '^\s*(\||=|-->|[0-9]+ \||warning)' | tail -40
exit "${PIPESTATUS[0]}"
