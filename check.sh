#!/bin/bash
# usage: check.sh <property> <tier>
# Builds the simulator against /repo's working tree, then runs the check.
# Exit: 0 held, 1 VIOLATION, 2 the check itself could not run.
set -u
here=$(cd "$(dirname "$0")" && pwd)
"$here/build.sh" || exit 2
exec "$here/sim/target/release/sim" check "$1" --tier "$2" \
    --seed "${VERIF_SEED:-1}" --root "$here"
