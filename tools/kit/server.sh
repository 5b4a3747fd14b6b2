#!/bin/sh
# Builds the server from the tree in the current folder (in a scratch folder) and runs demo.py against it.
set -e
D=$(cd "$(dirname "$0")" && pwd)
W=$(mktemp -d /tmp/demo.XXXXXX)
trap 'rm -rf "$W"' EXIT
export PATH="/root/.cargo/bin:$PATH" RUSTUP_TOOLCHAIN=stable CARGO_NET_OFFLINE=true RUSTFLAGS=-Awarnings CARGO_TARGET_DIR="${DEMO_TARGET:-$W/t}"
tar xzf "$D/kit.tgz" -C "$W"
VP_REPO="$(pwd)" python3 "$W/tools/mkws.py" "$W/ws" aptos-language-server >/dev/null
(cd "$W/ws" && cargo build -q -p aptos-language-server)
mkdir "$W/w"
export VP_WORK="$W" PYTHONPATH="$W"
timeout 120 python3 "$D/demo.py" "$CARGO_TARGET_DIR/debug/aptos-language-server" "$W/w"
