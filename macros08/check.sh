#!/bin/bash
# check.sh check [quick|thorough] | replay FILE: decides C08. The statements are generated, compiled
# with mortal from /repo's working tree, and run. Called by ../check.sh after the harness is built.
cd "$(dirname "$0")" || exit 2
VD=$(cd .. && pwd)
export PATH=/usr/local/bin:/usr/local/sbin:/usr/sbin:/usr/bin:/sbin:/bin
export HOME=${HOME:-/root} RUSTUP_TOOLCHAIN=stable RUSTC_WRAPPER= CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never
unset RUSTFLAGS CARGO_ENCODED_RUSTFLAGS CARGO_TARGET_DIR CARGO_BUILD_TARGET
MODE=$1
TIER=${VERIF_TIER:-quick}
SEED=${VERIF_SEED:-1}
N=300
[ "$TIER" = thorough ] && N=2500
[ "$MODE" = replay ] && N=0
D=$VD/target/c08
RUN=$D/run.$$
mkdir -p "$D"
export SHAPES_RS=$D/shapes.rs SHAPES_JSON=$D/shapes.json VERIF_DIR=$VD
ADD=()
for f in "$VD"/harness/regressions/C08/*.json; do [ -f "$f" ] && ADD+=("$f"); done
[ "$MODE" = replay ] && ADD=("$2")

build() {
    timeout -k 5 800 cargo build --release --offline --locked --target-dir ../target >"$RUN.log" 2>&1
}

(
    flock 9
    "$VD/target/release/mortal-pbt" gen08 "$SEED" "$N" "$D" "${ADD[@]}" || exit 2
    build || build || {
        # An error at a statement, while everything else compiles
        line=$(grep -A4 "^error" "$RUN.log" | grep -oE -- "--> [^ ]*shapes\.rs:[0-9]+" | head -1 | grep -oE "[0-9]+$")
        if [ -n "$line" ]; then
            mkdir -p "$VD/replay"
            R=$VD/replay/C08-seed$SEED.json
            [ "$MODE" = replay ] && R=/dev/null
            text=$("$VD/target/release/mortal-pbt" shape08 "$D" "$line" "$R") || exit 2
            if [ "$MODE" = replay ]; then
                echo "FAIL: does not compile"
            else
                echo "VIOLATION property=C08 replay=$R"
                mkdir -p "$VD/evidence"
                printf '{"property": "C08", "tier": "%s", "seed": %s, "level": "exploration", "coverage": {"evaluations": %s, "distinct_nontrivial": %s, "rule": "generated statements are compiled", "samples": ["shapes.rs:%s"]}, "assumptions": [], "wall_s": 0, "violations": 1}\n' \
                    "$TIER" "$SEED" "$N" "$N" "$line" >"$VD/evidence/C08.json"
            fi
            echo "a statement does not compile; $text"
            grep -A12 "^error" "$RUN.log" | head -30
            exit 1
        fi
        echo "ERROR: the statements do not build"
        grep -E "^error" -A6 "$RUN.log" | head -40
        tail -5 "$RUN.log"
        exit 2
    }
    cp ../target/release/mortal-c08 "$RUN" || exit 2
) 9>../target/.lock
rc=$?
rm -f "$RUN.log"
if [ $rc -ne 0 ]; then
    rm -f "$RUN"
    exit $rc
fi
ulimit -c 0
if [ "$MODE" = replay ]; then
    "$RUN" replay "$2"
else
    "$RUN" check C08 "$TIER" ${VERIF_SCALE:+"$VERIF_SCALE"}
fi
rc=$?
rm -f "$RUN"
exit $rc
