#!/bin/bash
# Builds the monitor of one property from /repo's working tree and runs it.
#   run.sh Cxx [--replay FILE | --case TEXT | --list]
set -u
here=$(cd "$(dirname "$0")" && pwd)
id=$1; shift
bin=$(echo "$id" | tr 'A-Z' 'a-z')
export VERIF_DIR=$here
export RUSTUP_TOOLCHAIN=stable CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never
unset RUSTFLAGS CARGO_ENCODED_RUSTFLAGS CARGO_TARGET_DIR CARGO_BUILD_TARGET
cd "$here/harness" || exit 2
mkdir -p "$here/target"
log=$(mktemp /tmp/cniic-build.XXXXXX)
trap 'rm -f "$log"' EXIT
build() { cargo build --offline --bin "$bin" --bin cniic_cli --bin cniic_faulty "$@" >"$log" 2>&1; }
sanpids=
if [ "$id" = C09 ]; then
    # The same workload under the sanitizers, built at the same time
    mkdir -p "$here/target/san"
    for k in tsan asan; do
        f=$here/target/san/$k/x86_64-unknown-linux-gnu/debug
        rm -f "$f/c09" "$f/cniic_cli"
        { "$here/tools/build_san.sh" $k "$here/target/san" || "$here/tools/build_san.sh" $k "$here/target/san" --no-default-features; } >"$here/target/san/$k.log" 2>&1 &
        sanpids="$sanpids $!"
    done
fi
if [ "$id" = C17 ]; then
    # The program as its users build it, too: unoptimised, its threads meet at more places
    rm -f "$here/target/plain/debug/cniic"
    cargo build --offline --locked --manifest-path /repo/Cargo.toml --target-dir "$here/target/plain" --bin cniic >"$here/target/plain.log" 2>&1 &
    sanpids=$!
fi
if [ "$id" = C07 ] || [ "$id" = C21 ]; then
    # The monitor without optimisation, which turns some recursion into loops
    unopt=$here/target/unopt/$bin
    rm -f "$unopt"
    { cargo build --offline --profile unopt --bin "$bin" || cargo build --offline --profile unopt --bin "$bin" --no-default-features; } >"$here/target/unopt.log" 2>&1 &
    sanpids=$!
    export MON_UNOPT=$unopt
fi
if ! build; then
    # Internal functions may have been renamed: what remains is the codec interface and the program
    cp "$log" "$log.full"
    if ! build --no-default-features; then
        cat "$log.full"; rm -f "$log.full"
        echo "$id: the monitor could not be built"
        exit 2
    fi
    echo "note: built without direct access to internal modules:"; grep -m5 '^error' "$log.full"; rm -f "$log.full"
fi
rm -f "$log"
if [ -n "$sanpids" ]; then
    wait $sanpids
    export C09_SAN_DIR=$here/target/san MON_PLAIN=$here/target/plain/debug/cniic
fi
exec "$here/target/debug/$bin" "$@"
