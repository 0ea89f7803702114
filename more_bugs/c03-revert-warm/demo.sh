#!/bin/bash
# Runs the block(s) beside this file through the kernel: ok*.json must be
# accepted, bad*.json must be refused.
here=$(cd "$(dirname "$0")" && pwd)
t=zz_demo_$$
. /opt/vp/env.sh
trap 'rm -f /repo/evm_arithmetization/tests/$t.rs; rmdir --ignore-fail-on-non-empty /repo/evm_arithmetization/tests' EXIT
mkdir -p /repo/evm_arithmetization/tests
cp "$here/demo.rs" /repo/evm_arithmetization/tests/$t.rs
python3 /opt/vp/mkws.py || exit 3
cd /opt/vp/ws || exit 3
export DEMO_DIR="$here"
cargo test -p evm_arithmetization --offline --test $t -- --nocapture
