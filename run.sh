#!/bin/bash
# Builds the harness against /repo's working tree and runs one command of it:
#   run.sh check <property> | replay <file> | build
cd "$(dirname "$0")" || exit 2
. ./env.sh
log=$(mktemp /tmp/zkvp-build.XXXXXX)
if ! cargo build --offline --manifest-path harness/Cargo.toml >"$log" 2>&1; then
    grep -E '^error' -A12 "$log" | head -60 >&2
    rm -f "$log"
    echo "the harness does not build against /repo" >&2
    exit 2
fi
rm -f "$log"
[ "$1" = build ] && exit 0
exec "$CARGO_TARGET_DIR/debug/zkvp" "$@"
