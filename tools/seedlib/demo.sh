#!/bin/bash
# builds demo.rs against the crate in the current directory and runs it
D=$(cd "$(dirname "$0")" && pwd)
R=$PWD
S=$(mktemp -d /tmp/demo.XXXXXX)
trap 'rm -rf "$S"' EXIT
mkdir "$S/src"
cp "$D/demo.rs" "$S/src/main.rs"
cp "$R/Cargo.lock" "$S/Cargo.lock"
cat > "$S/Cargo.toml" <<T
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[dependencies]
ariadne-dns = { path = "$R" }
[workspace]
T
export HOME=/root PATH=/usr/local/bin:/usr/bin:/bin:/root/.cargo/bin RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu CARGO_NET_OFFLINE=true CARGO_INCREMENTAL=0
unset RUSTFLAGS RUSTC_WRAPPER CARGO_TARGET_DIR
cd "$S"
cargo build -q --offline --target-dir "${DEMO_TGT:-$S/tgt}" || exit 99
timeout 120 "${DEMO_TGT:-$S/tgt}/debug/demo"
