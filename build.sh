#!/bin/bash
# Builds the harness (and with it mortal from /repo's working tree), offline.
cd "$(dirname "$0")/harness" || exit 2
export PATH=/usr/local/bin:/usr/local/sbin:/usr/sbin:/usr/bin:/sbin:/bin
export HOME=${HOME:-/root} RUSTUP_TOOLCHAIN=stable RUSTC_WRAPPER= CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never
unset RUSTFLAGS CARGO_ENCODED_RUSTFLAGS CARGO_TARGET_DIR CARGO_BUILD_TARGET
mkdir -p ../target
LOG=../target/build.$$.log
(
    flock 9
    timeout -k 5 700 cargo build --release --offline --locked --target-dir ../target
) 9>../target/.lock >"$LOG" 2>&1
rc=$?
if [ $rc -ne 0 ]; then
    echo "ERROR: the harness does not build (status $rc)"
    grep -E "^(error|warning: unused)" -A6 "$LOG" | grep -v "^warning" | head -40
    tail -5 "$LOG"
    rm -f "$LOG"
    exit 2
fi
rm -f "$LOG"
exit 0
