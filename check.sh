#!/bin/bash
# check.sh ID [quick|thorough]: decides one property on /repo's working tree.
# exit 0: held on everything explored; 1: VIOLATION line; 2: no result.
# check.sh replay FILE: runs one recorded case. exit 0: passes; 1: fails.
ID=${1:?usage: check.sh ID [quick|thorough] | replay FILE}
FILE=$2
[ "$ID" = replay ] && FILE=$(realpath "$2")
cd "$(dirname "$0")" || exit 2
./build.sh || exit 2
ulimit -c 0
if [ "$ID" = replay ]; then
    export VERIF_DIR=$PWD
    grep -q '"property": *"C08"' "$FILE" && exec ./macros08/check.sh replay "$FILE"
    exec ./target/release/mortal-pbt replay "$FILE"
fi
export VERIF_TIER=${2:-${VERIF_TIER:-quick}} VERIF_SEED=${VERIF_SEED:-1} VERIF_DIR=$PWD
[ "$ID" = C08 ] && exec ./macros08/check.sh check
exec ./target/release/mortal-pbt check "$ID" "$VERIF_TIER" ${VERIF_SCALE:+"$VERIF_SCALE"}
