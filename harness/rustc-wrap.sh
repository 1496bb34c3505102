#!/bin/sh
# RUSTC_WRAPPER for the harness build: instruments the crate under test (and
# only that crate) with SanitizerCoverage trace-pc-guard. The callbacks live in
# harness/src/fuel.rs and give (a) a deterministic step counter ("fuel") and
# (b) an edge-coverage map of the executions the monitors observed.
rustc="$1"
shift
case " $* " in
*" --crate-name layout "*)
    exec "$rustc" "$@" -Cpasses=sancov-module \
        -Cllvm-args=-sanitizer-coverage-level=3 \
        -Cllvm-args=-sanitizer-coverage-trace-pc-guard
    ;;
*) exec "$rustc" "$@" ;;
esac
