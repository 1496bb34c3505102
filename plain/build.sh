#!/bin/sh
# Builds the crate under test, without features or instrumentation, from
# /repo's current tree.
set -e
here=$(cd "$(dirname "$0")" && pwd)
export CARGO_TARGET_DIR="${VH_TARGET:-/verif/target}/plain"
export CARGO_NET_OFFLINE=true
export RUSTUP_TOOLCHAIN="${RUSTUP_TOOLCHAIN:-stable}"
unset RUSTFLAGS CARGO_ENCODED_RUSTFLAGS RUSTC_WRAPPER
rm -rf "$CARGO_TARGET_DIR"/release/.fingerprint/layout-rs-*
cd "$here"
exec cargo build --release --offline
