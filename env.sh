# Sourced by every check script.
export PATH=$HOME/.cargo/bin:/usr/local/bin:/usr/bin:/bin:$PATH
export RUSTUP_TOOLCHAIN=nightly-2024-04-24
export CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never CARGO_INCREMENTAL=0 RUSTC_WRAPPER=
export VERIF=${VERIF:-/verif}
export CARGO_TARGET_DIR=${VERIF_TARGET:-$VERIF/target}
export RUSTFLAGS="--cap-lints=allow ${EXTRA_RUSTFLAGS:-}"
export RUST_LIB_BACKTRACE=0 RUST_BACKTRACE=0
