#!/bin/sh
# Build the simulator together with /repo's current working tree.  Offline.
here="$(cd "$(dirname "$0")" && pwd)"
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu
export RUSTC_WRAPPER="$here/rustc-wrap.sh"
export CARGO_TARGET_DIR="${SIM_TARGET:-$here/../target}"
export CARGO_INCREMENTAL=0
unset RUSTFLAGS CARGO_ENCODED_RUSTFLAGS CARGO_BUILD_RUSTFLAGS
cd "$here" && exec cargo build --offline --quiet --bin simwl
