#!/bin/bash
# run.sh check PROPERTY [thorough] | replay FILE | gen PROPERTY SEED RUN | traces PROPERTY SEED FROM TO
# Rebuilds the simulator against /repo's current tree and runs it.
cd "$(dirname "$0")" || exit 2
. sim/env.sh
export SIM_VERIF=$PWD
bins=(--bin sim)
# the command line tool is built only where it is needed
case "$1 $2" in "check C13" | replay* | gen* | traces*) bins+=(--bin simcli) ;; esac
log=$(mktemp) || exit 2
trap 'rm -f "$log"' EXIT
if ! (cd sim && flock "${TMPDIR:-/tmp}/protox-sim.lock" cargo build --offline "${bins[@]}") >"$log" 2>&1; then
    cat "$log" >&2
    echo "the simulator does not build against /repo" >&2
    exit 2
fi
args=("$@")
[ "$1" = check ] && [ "$VERIF_TIER" = thorough ] && args+=(thorough)
"$CARGO_TARGET_DIR/debug/sim" "${args[@]}"
