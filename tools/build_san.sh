#!/bin/bash
# build_san.sh KIND(tsan|asan) TARGETDIR [cargo args]: the C09 workload and the program under a sanitizer
here=$(cd "$(dirname "$0")/.." && pwd)
kind=$1; dir=$2; shift 2
case $kind in tsan) s=thread ;; asan) s=address ;; esac
export RUSTUP_TOOLCHAIN=nightly CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never
unset CARGO_ENCODED_RUSTFLAGS CARGO_BUILD_TARGET
export RUSTFLAGS="--cfg cniic_verif --cfg cniic_san -Zsanitizer=$s -Cforce-frame-pointers=yes"
cd "$here/harness" || exit 2
exec cargo build --offline -Zbuild-std --target x86_64-unknown-linux-gnu --target-dir "$dir/$kind" --bin c09 --bin cniic_cli "$@"
