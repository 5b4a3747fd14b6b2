#!/bin/sh
# Builds and runs the crate `demo` beside this file against the tree in the current folder, in a scratch folder.
set -e
D=$(cd "$(dirname "$0")" && pwd)
W=$(mktemp -d /tmp/demo.XXXXXX)
trap 'rm -rf "$W"' EXIT
export PATH="/root/.cargo/bin:$PATH" RUSTUP_TOOLCHAIN=stable CARGO_NET_OFFLINE=true RUSTFLAGS=-Awarnings CARGO_TARGET_DIR="${DEMO_TARGET:-$W/t}"
tar xzf "$D/kit.tgz" -C "$W"
mkdir -p "$W/harness" "$W/w"
cp -r "$D/demo" "$W/harness/demo"
VP_REPO="$(pwd)" python3 "$W/tools/mkws.py" "$W/ws" demo >/dev/null
(cd "$W/ws" && cargo build -q -p demo)
cd "$W/w"
timeout 120 "$CARGO_TARGET_DIR/debug/demo"
