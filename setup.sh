#!/bin/bash
# Builds every check once, to show that the framework builds offline.
export PATH="$PATH:/usr/local/bin:/root/.cargo/bin"
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu
export CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never RUSTC_WRAPPER= CARGO_INCREMENTAL=0
unset RUSTFLAGS CARGO_TARGET_DIR CARGO_BUILD_TARGET CARGO_ENCODED_RUSTFLAGS
dir=$(cd "$(dirname "$0")" && pwd)
exec cargo build --release --offline --manifest-path "$dir/harness/Cargo.toml"
