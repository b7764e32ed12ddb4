#!/bin/bash
# run.sh build | check ID | replay FILE | ...: builds the simulator from /repo's working tree, then runs it.
cd "$(dirname "$0")" || exit 2
export DST_ROOT="$PWD"
export CARGO_TARGET_DIR="$PWD/target" RUSTC_WRAPPER="$PWD/sim/rustc-wrap.sh" CARGO_NET_OFFLINE=true
log=$(mktemp /tmp/dst-build.XXXXXX)
if ! (cd sim && cargo build --release --offline) >"$log" 2>&1; then
    tail -n 60 "$log" >&2
    rm -f "$log"
    echo "BUILD FAILED" >&2
    exit 2
fi
rm -f "$log"
[ "$1" = build ] && exit 0
exec target/release/dst "$@"
