#!/bin/bash
# Builds the driver against /repo's current working tree (offline).
set -e
HERE=$(cd "$(dirname "$0")" && pwd)
export RUSTUP_TOOLCHAIN=1.82-x86_64-unknown-linux-gnu CARGO_NET_OFFLINE=true
export CARGO_TARGET_DIR=${VERIF_TARGET:-$HERE/../.build/target}
export RUSTFLAGS="--cfg tailcall_verif -Awarnings"
mkdir -p "$HERE/../.build"
python3 "$HERE/mkws.py"
cd "${VERIF_WS:-$HERE/../.build/ws}"
exec cargo build --offline -q -p driver
