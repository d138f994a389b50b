#!/bin/bash
# replay.sh FILE: executes a recorded violation trace against silverfox built from /repo and prints what happens
here="$(cd "$(dirname "$0")" && pwd)"
. "$here/build.sh" || exit 2
exec "$here/build/sfmc" replay "$1" --bin "$here/build/silverfox" --shim "$here/build/shim.so"
