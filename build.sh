#!/bin/bash
# build.sh : instrumented copy of the current /repo tree + the checking program.
set -u
here="$(cd "$(dirname "$0")" && pwd)"
mkdir -p "$here/build"
exec 9>"$here/build/.lock"
flock 9
python3 "$here/harness/prepare.py" || exit 1
cd "$here/harness" || exit 1
export RUSTUP_TOOLCHAIN="${RUSTUP_TOOLCHAIN:-stable}" CARGO_TARGET_DIR="$here/build/target" RUSTFLAGS="-Awarnings" CARGO_NET_OFFLINE=true
log="$here/build/build.log"
cargo build --offline --quiet -p vpcheck >"$log" 2>&1 9>&- || { tail -60 "$log" >&2; exit 1; }
