#!/bin/bash
# asan.sh: builds monvm and monsdk with AddressSanitizer.
VERIF=$(cd "$(dirname "$0")/.." && pwd); export VERIF
. "$VERIF/env.sh"
export RUSTFLAGS="$RUSTFLAGS -Zsanitizer=address" CARGO_TARGET_DIR=$CARGO_TARGET_DIR/asan
cd "$VERIF/ws" && cargo build --target x86_64-unknown-linux-gnu -p monvm -p monsdk
