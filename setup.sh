#!/bin/bash
# Builds what the checks need beforehand; each check builds again what /repo's changes require.
cd "$(dirname "$0")" || exit 2
./build.sh || exit 2
# The dependencies of the generated program
VERIF_SEED=${VERIF_SEED:-1} VERIF_SCALE=0.001 ./macros08/check.sh check >/dev/null
exit 0
