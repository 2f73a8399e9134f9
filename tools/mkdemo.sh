#!/bin/bash
# mkdemo.sh <seed id> <crate ...>: lays the demo kit into seeded/<id>; the crates are the workspace members the demo needs
V=/verif; d=$V/seeded/$1; shift
mkdir -p $d/kit/ws
cp $V/tools/demo/demo.sh $d/; cp $V/tools/demo/mkvendor.sh $V/tools/vendor.list $d/kit/
mkdir -p $d/kit/shims; cp -r $V/shims/. $d/kit/shims/
cp -r $V/ws/.cargo $d/kit/ws/; cp $V/ws/Cargo.lock $d/kit/ws/
m='"demo"'
for c in "$@"; do cp -r $V/ws/$c $d/kit/ws/; m="$m, \"$c\""; done
M="$m" perl -0pe 's/^members = \[.*?\]/members = [$ENV{M}]/ms' $V/ws/Cargo.toml >$d/kit/ws/Cargo.toml
[ -f $d/demo.toml ] || { echo '[package]
name = "demo"
version = "0.1.0"
edition = "2021"

[dependencies]
anyhow = "1.0"
im = "15.1"
plonky2 = { version = "0", default-features = false }' >$d/demo.toml
for c in "$@"; do case $c in runner) echo 'mozak-runner = { path = "../runner" }';; sdk) echo 'mozak-sdk = { path = "../sdk" }';; examples) ;; *) echo "$c = { path = \"../$c\" }";; esac; done >>$d/demo.toml; }
