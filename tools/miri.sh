#!/bin/bash
# miri.sh <scratch dir> <seed> <transactions> <programs>: runs miriws/monub in Miri.
# With MIRI_BUILT set, the sources were copied by an earlier call.
# Miri's compiler is newer than the repository's and rejects one trait alias of the SDK (relaxed
# bounds in aliases); Miri therefore gets a copy of the sources without that relaxation.
VERIF=$(cd "$(dirname "$0")/.." && pwd); export VERIF
. "$VERIF/env.sh"
export RUSTUP_TOOLCHAIN=nightly XDG_CACHE_HOME=$CARGO_TARGET_DIR/miri-cache
unset RUSTC_WRAPPER RUSTFLAGS
T=$CARGO_TARGET_DIR; src=$T/miri-src
if [ -z "$MIRI_BUILT" ]; then
    new=$T/miri-new; find "$new" -delete 2>/dev/null; mkdir -p "$new" "$src" && cp -r /repo/sdk /repo/runner "$new/" || exit 3
    sed -i "s/= ?Sized + /= /" "$new/sdk/src/common/traits.rs"
    find "$new" -name "*.rs" -exec sed -i "s/^#!\[deny(/#![allow(/" {} +
    # unchanged files keep their times, so that nothing is compiled in vain
    (cd "$src" && find . -type f | while read -r f; do [ -e "$new/$f" ] || unlink "$f"; done)
    (cd "$new" && find . -type f | while read -r f; do cmp -s "$f" "$src/$f" || { mkdir -p "$src/$(dirname "$f")"; cp "$f" "$src/$f"; }; done)
    find "$new" -delete
fi
export CARGO_TARGET_DIR=$T/miri
export MIRIFLAGS="-Zmiri-disable-isolation ${MIRI_EXTRA:-}"
if [ ! -f "$T/miri-cache/ok" ]; then (cd / && cargo miri setup -q) && touch "$T/miri-cache/ok" || exit 3; fi
export MIRI_SYSROOT=$(cd / && cargo miri setup --print-sysroot -q)
cd "$VERIF/miriws" || exit 3
exec cargo miri run -q -p monub -- "$@"
