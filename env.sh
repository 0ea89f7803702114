# Build environment of the harness: the toolchain /repo pins, offline, own target dir.
export HOME=/root
export PATH="/root/.cargo/bin:/usr/local/cargo/bin:$PATH"
export RUSTUP_TOOLCHAIN=nightly-2024-09-24
export CARGO_NET_OFFLINE=true
export CARGO_INCREMENTAL=1
export CARGO_TERM_COLOR=never
export CARGO_TARGET_DIR="${ZKVP_TARGET:-/verif/target}"
export RUSTC_WRAPPER=
export RUST_LOG=off
export RUSTFLAGS="-Z linker-features=-lld --cfg verif_hooks"
unset CARGO_BUILD_TARGET
