#!/bin/bash
# Builds the guest programs with arithmetic and pointer assertions.
VERIF=$(cd "$(dirname "$0")/.." && pwd); export VERIF
. "$VERIF/env.sh"
unset RUSTFLAGS
export CARGO_TARGET_DIR=$CARGO_TARGET_DIR/dbg CARGO_PROFILE_MOZAK_RELEASE_DEBUG_ASSERTIONS=true CARGO_PROFILE_MOZAK_RELEASE_OVERFLOW_CHECKS=true
cd /repo && cargo mozakvm-build --manifest-path "$VERIF/guest/Cargo.toml" -p actor-mozakvm -p seeker-mozakvm
