#!/bin/bash
# Builds the simulator (sim/) against the crate in /repo, offline.
set -u
here=$(cd "$(dirname "$0")" && pwd)
cd "$here/sim" || exit 2
export CARGO_TARGET_DIR="$here/sim/target" CARGO_NET_OFFLINE=true
log=$(mktemp)
if ! cargo build --release --offline --quiet >"$log" 2>&1; then
    echo "check.sh: the simulator does not build against /repo" >&2
    tail -n 60 "$log" >&2
    rm -f "$log"
    exit 2
fi
rm -f "$log"
