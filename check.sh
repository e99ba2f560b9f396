#!/bin/bash
# usage: check.sh C01 [quick|thorough]   |   check.sh replay FILE
# Builds the model checker against the current working tree of /repo and runs one check.
set -u
here="$(cd "$(dirname "$0")" && pwd)"
cd "$here/harness" || exit 2
unset RUSTFLAGS CARGO_ENCODED_RUSTFLAGS CARGO_BUILD_RUSTFLAGS CARGO_TARGET_DIR RUSTC_WRAPPER CARGO_BUILD_TARGET
export CARGO_NET_OFFLINE=true NOODLE_VERIF="$here"
log="$(mktemp)"
if ! cargo build --release --locked --offline >"$log" 2>&1; then
    tail -n 60 "$log" >&2
    rm -f "$log"
    echo "build failed" >&2
    exit 2
fi
rm -f "$log"
cd "$here" || exit 2
if [ "${1:-}" = build ]; then exit 0; fi
if [ "${1:-}" = replay ] || [ "${1:-}" = run ] || [ "${1:-}" = list ]; then
    exec harness/target/release/noodle-mc "$@"
fi
exec harness/target/release/noodle-mc check "$@"
