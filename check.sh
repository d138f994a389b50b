#!/bin/bash
# check.sh ID [quick|thorough]: builds the driver, the shim and silverfox (from /repo's working tree) and runs one check.
# Exit 0: held on everything explored. 1: VIOLATION. 2: the check itself could not run.
set -u
export RUST_BACKTRACE=0
here="$(cd "$(dirname "$0")" && pwd)"
id="${1:?property}"
tier="${2:-${VERIF_TIER:-quick}}"
. "$here/build.sh" || exit 2
exec "$here/build/sfmc" "$id" "$tier" --bin "$here/build/silverfox" --shim "$here/build/shim.so" --verif "$here"
