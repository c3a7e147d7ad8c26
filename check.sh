#!/bin/bash
# check.sh ID [--replay FILE]   (VERIF_SEED, VERIF_TIER=quick|thorough)
# Builds the harness against /repo's working tree and runs one check.
export PATH="$PATH:/usr/local/bin:/root/.cargo/bin"
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu
export CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never RUSTC_WRAPPER= CARGO_INCREMENTAL=0
unset RUSTFLAGS CARGO_TARGET_DIR CARGO_BUILD_TARGET CARGO_ENCODED_RUSTFLAGS
dir=$(cd "$(dirname "$0")" && pwd)
export VERIF_DIR="$dir"
id=${1:?usage: check.sh ID [--replay FILE]}
shift
bin=$(echo "$id" | tr 'A-Z' 'a-z')
mkdir -p "$dir/out"
log="$dir/out/build.$id.log"
# cargo goes by the age of files; here their contents decide
now=$(cd /repo && find Cargo.toml src -type f | LC_ALL=C sort | xargs sha256sum | sha256sum)
fresh() {
    stamp="$1/target/contents"
    if [ -d "$1/target" ] && [ "$(cat "$stamp" 2>/dev/null)" != "$now" ]; then
        cargo clean --release --offline -p h3-rs --manifest-path "$1/Cargo.toml" >/dev/null 2>&1
        echo "$now" >"$stamp"
    fi
}
fresh "$dir/harness"
if ! cargo build --release --offline --manifest-path "$dir/harness/Cargo.toml" --bin "$bin" >"$log" 2>&1; then
    grep -A8 '^error' "$log" | head -60 >&2
    echo "ERROR property=$id: the harness does not build against /repo (see $log)" >&2
    exit 2
fi
if [ "$VERIF_TIER" = thorough ] && [ $# = 0 ]; then
    # coverage-guided search, too
    fresh "$dir/fuzz"
    RUSTC_WRAPPER="$dir/fuzz/wrap.sh" cargo build --release --offline --manifest-path "$dir/fuzz/Cargo.toml" >"$dir/out/build.fuzz.log" 2>&1 ||
        { rm -f "$dir/fuzz/target/release/vfuzz"; echo "the coverage-guided target does not build (see out/build.fuzz.log)" >&2; }
fi
exec "$dir/harness/target/release/$bin" "$@"
