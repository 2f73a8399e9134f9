#!/bin/bash
# Unpacks the crates listed in vendor.list from the sandbox's crate caches.
set -e
w=$1; cd "$w/vendor"
for c in $(cat "$w/vendor.list"); do
    f=$(ls $HOME/.cargo/registry/cache/index.crates.io-6f17d22bba15001f/$c.crate $HOME/.cargo/registry/cache/index.crates.io-1949cf8c6b5b557f/$c.crate 2>/dev/null | head -1)
    tar --no-same-owner -xzf "$f"
    echo '{"files":{}}' >"$c/.cargo-checksum.json"
done
