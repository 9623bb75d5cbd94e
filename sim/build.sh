#!/bin/bash
# Build the simulation from /repo's tree: base, unsized (coerce-unsized feature) or swap (the same
# with the two kinds of unsized values exchanged between the collectors).
set -e
cd "$(dirname "$0")/work"
export RUSTC_WRAPPER="$PWD/../rustc-wrap.sh"
export RUSTFLAGS="-Zshare-generics=n -Crelocation-model=static --cap-lints=allow"
export CARGO_NET_OFFLINE=true
F=(); [ -n "$1" ] && [ "$1" != base ] && F=(--features "$1")
export CARGO_TARGET_DIR="$PWD/../target-${1:-base}"
exec cargo +nightly -Zchecksum-freshness build -q --target x86_64-unknown-linux-gnu "${F[@]}"
