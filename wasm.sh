#!/bin/bash
# Builds the published package (release wasm + glue + type declarations) from /repo's working
# tree into target/pkg; the hook is off.
export RUSTUP_TOOLCHAIN=1.98.0 CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never RUSTC_WRAPPER=
unset CARGO_BUILD_TARGET CARGO_ENCODED_RUSTFLAGS RUSTFLAGS
here=$(cd "$(dirname "$0")" && pwd)
export CARGO_TARGET_DIR=$here/target/wasm
W=wasm32-unknown-unknown
rm -rf "$CARGO_TARGET_DIR"/$W/release/.fingerprint/bq2cst-* "$here"/target/pkg
cargo build --release --offline --locked --quiet --lib --target $W --manifest-path /repo/Cargo.toml || exit 1
exec /opt/vp/wbg/bin/wasm-bindgen --target nodejs --out-dir "$here/target/pkg" "$CARGO_TARGET_DIR/$W/release/bq2cst.wasm"
