#!/bin/bash
# Builds the simulator against /repo's working tree and runs the check of one property.
# check.sh <property> | check.sh replay <file>
# Exit 0: held. Exit 1: violation. Anything else: the check itself failed.
cd "$(dirname "$0")" || exit 2
home=$(pwd)
profile=release
[ "$VERIF_TIER" = thorough ] && [ -z "$WOTSIM_QUICKBUILD" ] && profile=thorough
log=$(mktemp) || exit 2
if ! (cd sim && cargo build --quiet --offline --profile $profile) >"$log" 2>&1; then
    tail -40 "$log" >&2
    rm -f "$log"
    echo "the simulator does not build" >&2
    exit 2
fi
rm -f "$log"
export WOTSIM_HOME=$home
if [ "$1" = replay ]; then
    exec "sim/target/$profile/wotsim" replay "$2"
fi
"sim/target/$profile/wotsim" check "$1"
