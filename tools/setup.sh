#!/bin/bash
# Builds everything the checks use (each check rebuilds what changed by itself).
VERIF=$(cd "$(dirname "$0")/.." && pwd); export VERIF
. "$VERIF/env.sh"
mkdir -p "$VERIF/out" "$VERIF/evidence"
cd "$VERIF/ws" && cargo build --workspace >"$VERIF/out/setup.log" 2>&1 || { tail -30 "$VERIF/out/setup.log"; exit 1; }
bash "$VERIF/tools/guests.sh" >>"$VERIF/out/setup.log" 2>&1 || { tail -30 "$VERIF/out/setup.log"; exit 1; }
