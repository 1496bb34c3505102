#!/bin/sh
# Builds the harness against /repo's current tree. cargo decides what is stale
# by modification time, so the fingerprints of the crate under test are dropped.
set -e
here=$(cd "$(dirname "$0")" && pwd)
export CARGO_TARGET_DIR="${VH_TARGET:-/verif/target}"
export CARGO_NET_OFFLINE=true
export RUSTUP_TOOLCHAIN="${RUSTUP_TOOLCHAIN:-stable}"
export RUSTC_WRAPPER="$here/rustc-wrap.sh"
unset RUSTFLAGS CARGO_ENCODED_RUSTFLAGS
rm -rf "$CARGO_TARGET_DIR"/release/.fingerprint/layout-rs-*
cd "$here"
exec cargo build --release --offline --bin "$1"
