#!/bin/bash
# Builds gsim from /verif/sim and /repo's current working tree, three times: plain, with a callback at every memory
# access of granne (see sim/core/src/mem.rs), and with the Python bindings.  Quiet unless it fails.
set -u
V=$(cd "$(dirname "$0")" && pwd)
export RUSTUP_TOOLCHAIN=${GSIM_TOOLCHAIN:-stable-x86_64-unknown-linux-gnu} CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never
unset RUSTFLAGS CARGO_BUILD_RUSTFLAGS RUSTC_WRAPPER CARGO_ENCODED_RUSTFLAGS
T="$V/target"
mkdir -p "$T/fine" "$V/evidence" "$V/replays"
exec 9>"$T/.gsim-lock"
flock 9
# what the code is counts, not when its files were written
now=$( (cd /repo && find Cargo.toml src -type f -print0 | sort -z | xargs -0 sha256sum) | sha256sum | cut -d' ' -f1)
nowpy=$( (cd /repo && find py/Cargo.toml py/src -type f -print0 | sort -z | xargs -0 sha256sum) | sha256sum | cut -d' ' -f1)
cd "$V/sim" || exit 2
one() { # target directory
    export CARGO_TARGET_DIR=$1
    local was; was=$(cat "$1/.gsim-repo" 2>/dev/null || true)
    if [ "$now" != "$was" ]; then
        rm -f "$1/.gsim-repo"
        [ -n "$was" ] && cargo clean --release --offline -p granne >/dev/null 2>&1
    fi
    if ! cargo build --release --offline >"$1/build.log" 2>&1; then
        grep -A12 "^error" "$1/build.log" >&2
        echo "gsim does not build against /repo" >&2
        return 2
    fi
    echo "$now" >"$1/.gsim-repo"
}
(RUSTC_WRAPPER="$V/sim/rustc-wrap.sh" one "$T/fine") & fine=$!
one "$T"; r=$?
wait $fine || r=2
[ $r = 0 ] || exit $r
# the bindings need a Python to link with; only the check of the bindings depends on this part
export CARGO_TARGET_DIR=$T
if [ "$nowpy" != "$(cat "$T/.gsim-repo-py" 2>/dev/null)" ]; then
    [ -f "$T/.gsim-repo-py" ] && cargo clean --release --offline -p granne-py >/dev/null 2>&1
    rm -f "$T/.gsim-repo-py"
fi
if cargo build --release --offline --features py --bin gsim-py >"$T/build-py.log" 2>&1; then
    echo "$nowpy" >"$T/.gsim-repo-py"
else
    rm -f "$T/.gsim-repo-py" "$T/release/gsim-py"
fi
exit 0
