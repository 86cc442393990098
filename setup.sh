#!/bin/bash
# Builds the harness (and its dependencies) into the ignored build/ directory. Checks rebuild
# what depends on /repo themselves.
set -e
cd "$(dirname "$0")"
export CARGO_TARGET_DIR="$PWD/build/target" CARGO_NET_OFFLINE=true RUSTUP_TOOLCHAIN=stable CARGO_INCREMENTAL=1
cargo build --offline --locked --manifest-path conf/Cargo.toml 2>&1 | tail -3
for t in spec/*.tla; do [ -f "$t" ] || exit 1; done
