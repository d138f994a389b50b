#!/bin/bash
# Builds what the checks run, into /verif/build: shim.so, sfmc (the driver) and silverfox.
# silverfox is rebuilt from the working tree of /repo whenever the content of its sources differs.
here="$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)"
repo="${SF_REPO:-/repo}"
b="$here/build"
mkdir -p "$b" || return 2 2>/dev/null || exit 2
export CARGO_NET_OFFLINE=true
sf_build() {
    (
        flock 9
        if [ ! -e "$b/shim.so" ] || [ "$here/shim/shim.c" -nt "$b/shim.so" ]; then
            gcc -O2 -Wall -shared -fPIC -o "$b/shim.so.new" "$here/shim/shim.c" -ldl && mv "$b/shim.so.new" "$b/shim.so" || exit 1
        fi
        want="$(cd "$here/mc" && find Cargo.toml Cargo.lock src -type f | LC_ALL=C sort | xargs sha256sum | sha256sum)"
        if [ ! -x "$b/sfmc" ] || [ "$(cat "$b/sfmc.sum" 2>/dev/null)" != "$want" ]; then
            CARGO_TARGET_DIR="$b/mc-target" cargo build --offline --locked --release -q --manifest-path "$here/mc/Cargo.toml" || exit 1
            cp "$b/mc-target/release/sfmc" "$b/sfmc.new" && mv "$b/sfmc.new" "$b/sfmc" || exit 1
            echo "$want" > "$b/sfmc.sum"
        fi
        want="$(cd "$repo" && find . -path ./target -prune -o -path ./.git -prune -o -type f -print | LC_ALL=C sort | xargs -d '\n' sha256sum | sha256sum)"
        if [ ! -x "$b/silverfox" ] || [ "$(cat "$b/silverfox.sum" 2>/dev/null)" != "$want" ]; then
            # the binary's own crate is always recompiled: file times say nothing about a tree that was swapped
            export CARGO_TARGET_DIR="$b/sf-target" CARGO_PROFILE_DEV_OPT_LEVEL=1 CARGO_PROFILE_DEV_DEBUG=0
            cargo clean --offline -q -p silverfox --manifest-path "$repo/Cargo.toml" 2>/dev/null || true
            cargo build --offline --locked -q --manifest-path "$repo/Cargo.toml" --bin silverfox || exit 1
            cp "$b/sf-target/debug/silverfox" "$b/silverfox.new" && mv "$b/silverfox.new" "$b/silverfox" || exit 1
            echo "$want" > "$b/silverfox.sum"
        fi
    ) 9> "$b/.lock" || { echo "error: build failed" >&2; return 2; }
}
sf_build
