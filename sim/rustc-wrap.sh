#!/bin/bash
# RUSTC_WRAPPER: granne and gsim (which instantiates granne's generic code) get a callback before every load and store.
rustc=$1; shift
for a in "$@"; do
    if [ "$p" = --crate-name ] && { [ "$a" = granne ] || [ "$a" = gsim ]; }; then
        exec "$rustc" "$@" -Cpasses=sancov-module -Cllvm-args=-sanitizer-coverage-level=3 -Cllvm-args=-sanitizer-coverage-inline-8bit-counters \
            -Cllvm-args=-sanitizer-coverage-trace-loads -Cllvm-args=-sanitizer-coverage-trace-stores
    fi
    p=$a
done
exec "$rustc" "$@"
