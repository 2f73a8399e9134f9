#!/bin/bash
# check.sh <monitor binary> <property id> [quick|thorough]
# Rebuilds the monitor against the current tree of /repo and runs it.
VERIF=$(cd "$(dirname "$0")/.." && pwd); export VERIF
. "$VERIF/env.sh"
export VERIF_TIER=${3:-${VERIF_TIER:-quick}} VERIF_SEED=${VERIF_SEED:-1}
mkdir -p "$VERIF/out" "$VERIF/evidence"
log=$VERIF/out/build-$1.log
if ! (cd "$VERIF/ws" && cargo build -p "$1") >"$log" 2>&1; then
    echo "build of $1 failed:" >&2
    grep -E '^error' -A8 "$log" | cut -c1-200 | head -60 >&2
    exit 3
fi
case $1 in
monsdk)
    if ! bash "$VERIF/tools/guests.sh" >"$log" 2>&1; then
        echo "build of the guest programs failed:" >&2
        grep -E '^error' -A8 "$log" | cut -c1-200 | head -60 >&2
        exit 3
    fi ;;
esac
if [ "$2" = C18 ]; then
    # What cannot be built is left out (and then counts nothing); the native build above did succeed.
    mkdir -p "$VERIF/out/C18/build"
    (timeout 500 bash "$VERIF/tools/miri.sh" "$VERIF/out/C18/build" 1 0 0 >"$VERIF/out/C18/build/miri.log" 2>&1) &
    (timeout 500 bash "$VERIF/tools/asan.sh" >"$VERIF/out/C18/build/asan.log" 2>&1) &
    (timeout 500 bash "$VERIF/tools/checkedguests.sh" >"$VERIF/out/C18/build/guests.log" 2>&1) &
    wait
fi
exec "$CARGO_TARGET_DIR/debug/$1" "$2" 2>&1
