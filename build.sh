#!/bin/bash
# Builds the model checker against /repo's current working tree (hooks on), offline.
# Used by every check; output in /verif/target (ignored by git).
export RUSTUP_TOOLCHAIN=1.98.0 CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never RUSTC_WRAPPER=
unset CARGO_BUILD_TARGET CARGO_ENCODED_RUSTFLAGS
export RUSTFLAGS="--cfg bq2cst_verif -A warnings"
here=$(cd "$(dirname "$0")" && pwd)
export CARGO_TARGET_DIR=$here/target
# cargo goes by mtimes: drop the fingerprint so that bq2cst itself is always compiled again
rm -rf "$CARGO_TARGET_DIR"/release/.fingerprint/bq2cst-*
exec cargo build --release --offline --quiet --manifest-path "$here/mc/Cargo.toml"
