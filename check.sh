#!/bin/sh
# check.sh PROPERTY quick|thorough: builds the monitors against /repo's current
# tree, runs the check of one property, writes evidence/PROPERTY.json.
# Exit 0: held; 1: violated (VIOLATION line); 2: no verdict.
here=$(cd "$(dirname "$0")" && pwd)
id=$1
tier=${2:-${VERIF_TIER:-quick}}
seed=${VERIF_SEED:-1}
case "$id" in
    C17|C18|C19) bin=vh_dag ;;
    C20) bin=vh_map ;;
    C21) bin=vh_geom ;;
    C26|C27|C28|C29|C35|C36) bin=vh_api ;;
    *) bin=vh_core ;;
esac
export VH_TARGET="$here/target"
export VH_REPLAYS="$here/replays"
export VH_KNOWN="$here/known-findings.txt"
export VH_EVIDENCE="$here/evidence/$id.json"
mkdir -p "$here/evidence" "$here/replays" "$here/target"
rm -f "$VH_EVIDENCE"
log="$here/target/build-$id.log"
if ! "$here/harness/build.sh" "$bin" >"$log" 2>&1; then
    tail -40 "$log" >&2
    echo "NO VERDICT property=$id: the harness does not build against /repo" >&2
    exit 2
fi
if [ "$id" = C23 ]; then
    # The real command line tool, built from the same tree.
    export VH_CLI="$here/target/cli/debug/layout"
    rm -rf "$here"/target/cli/debug/.fingerprint/layout-*
    if ! (cd /repo && CARGO_TARGET_DIR="$here/target/cli" CARGO_NET_OFFLINE=true cargo build --offline --bin layout) >"$log" 2>&1; then
        tail -40 "$log" >&2
        echo "NO VERDICT property=$id: the tool does not build" >&2
        exit 2
    fi
fi
if [ "$id" = C13 ]; then
    # The library as its users build it.
    export VH_PLAIN="$here/target/plain/release/vh_plain"
    if ! "$here/plain/build.sh" >"$log" 2>&1; then
        tail -40 "$log" >&2
        echo "NO VERDICT property=$id: the plain build fails" >&2
        exit 2
    fi
fi
exec "$here/target/release/$bin" run "$id" "$tier" "$seed"
