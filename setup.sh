#!/bin/bash
# Builds every monitor once (each check rebuilds what it needs by itself).
set -eu
cd "$(dirname "$0")/harness"
export RUSTUP_TOOLCHAIN=stable CARGO_NET_OFFLINE=true
unset RUSTFLAGS CARGO_ENCODED_RUSTFLAGS CARGO_TARGET_DIR CARGO_BUILD_TARGET
cargo build --offline --bins
cargo build --offline --profile unopt --bin c07 --bin c21
