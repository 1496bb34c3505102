#!/bin/sh
# Builds the harness once, so that later checks only rebuild what changed.
set -e
here=$(cd "$(dirname "$0")" && pwd)
export VH_TARGET="$here/target"
mkdir -p "$here/evidence" "$here/replays" "$here/target"
for b in $(sed -n 's/^name = "\(vh_[a-z]*\)"$/\1/p' "$here/harness/Cargo.toml"); do
    "$here/harness/build.sh" "$b"
done
"$here/plain/build.sh"
cd /repo
CARGO_TARGET_DIR="$here/target/cli" CARGO_NET_OFFLINE=true cargo build --offline --bin layout
