#!/bin/bash
# Rebuilds /verif/vendor from the two crate caches of the sandbox (run once; the result is committed).
set -e
cd "$(dirname "$0")/../vendor"
C1=$(ls -d $HOME/.cargo/registry/cache/index.crates.io-6f17d22bba15001f)
C2=$(ls -d $HOME/.cargo/registry/cache/index.crates.io-1949cf8c6b5b557f)
get() { # name-version
  [ -d "$1" ] && return
  f=$C1/$1.crate; [ -f $f ] || f=$C2/$1.crate
  tar xzf $f
  echo '{"files":{}}' > $1/.cargo-checksum.json
  (cd "$1"; for d in tests benches examples ci .github docs fuzz test_data; do [ -d $d ] && find $PWD/$d -delete; done; find . -name '*.md' -size +20k -delete; true)
}
for c in $(cat ../tools/vendor.list); do get $c; done
