#!/bin/bash
# Builds main.rs (beside this script) against the sources in /repo and runs it: exit 0 = behaves as the property says.
set -u
here=$(cd "$(dirname "$0")" && pwd)
export PATH=$HOME/.cargo/bin:/usr/local/bin:/usr/bin:/bin:$PATH RUSTUP_TOOLCHAIN=nightly-2024-04-24
export CARGO_NET_OFFLINE=true CARGO_INCREMENTAL=0 RUSTC_WRAPPER= RUSTFLAGS=--cap-lints=allow
work=$(mktemp -d /tmp/demo.XXXXXX) || exit 2
trap 'find "$work" -mindepth 0 -delete' EXIT
export CARGO_TARGET_DIR=$work/target
mkdir "$work/vendor" && cp -r "$here"/kit/. "$work/" || exit 2
bash "$work/mkvendor.sh" "$work" >"$work/vendor.log" 2>&1 || { tail "$work/vendor.log"; exit 2; }
mkdir -p "$work/ws/demo/src" && cp "$here/main.rs" "$work/ws/demo/src/main.rs" && cp "$here/demo.toml" "$work/ws/demo/Cargo.toml"
cd "$work/ws" && cargo build -q -p demo >"$work/build.log" 2>&1 || { tail -40 "$work/build.log"; exit 2; }
timeout 100 "$work/target/debug/demo"
