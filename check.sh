#!/bin/bash
# check.sh ID: builds from /repo's working tree and decides property ID (VERIF_SEED, VERIF_TIER).
V=$(cd "$(dirname "$0")" && pwd)
bash "$V/build.sh" || exit 2
B="$V/target/release/gsim"
if [ "$1" = C33 ]; then
    B="$V/target/release/gsim-py"
    if [ ! -x "$B" ]; then
        grep -A12 "^error" "$V/target/build-py.log" >&2
        echo "gsim-py does not build against /repo" >&2
        exit 2
    fi
fi
exec "$B" check "$1"
