#!/bin/bash
# Builds the guest programs that the SDK checks run in the VM.
VERIF=$(cd "$(dirname "$0")/.." && pwd); export VERIF
. "$VERIF/env.sh"
unset RUSTFLAGS
cd /repo && cargo mozakvm-build --manifest-path "$VERIF/guest/Cargo.toml" -p actor-mozakvm -p seeker-mozakvm
