#!/bin/bash
# Builds the analyser and the std models (offline).
set -e -o pipefail
V=$(dirname "$(realpath "$0")")
export HOME=/root PATH=/usr/local/bin:/usr/bin:/bin:/root/.cargo/bin CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never
unset RUSTFLAGS CARGO_TARGET_DIR RUSTC_WRAPPER RUSTC_WORKSPACE_WRAPPER
export RUSTUP_TOOLCHAIN=nightly
mkdir -p "$V/.work/rt"
(cd "$V/sa" && cargo build -q --release --offline --target-dir "$V/.work/sa" >"$V/.work/build.log" 2>&1) || { cat "$V/.work/build.log"; exit 2; }
test -x "$V/.work/sa/release/ariadne-sa"
if [ ! -f "$V/.work/rt/libsa_rt.rmeta" ] || [ "$V/sa_rt/lib.rs" -nt "$V/.work/rt/libsa_rt.rmeta" ]; then
  rustc --edition 2021 --crate-type lib --crate-name sa_rt --emit metadata -Zalways-encode-mir -Zmir-opt-level=0 -Cdebuginfo=0 -o "$V/.work/rt/libsa_rt.rmeta" "$V/sa_rt/lib.rs"
fi
# the dependencies of the analysed crate, so that a check only compiles the crate itself
if [ "$1" = full ]; then
  SYS=$(rustc --print sysroot)
  export CARGO_PROFILE_DEV_DEBUG_ASSERTIONS=false CARGO_PROFILE_DEV_OVERFLOW_CHECKS=true CARGO_INCREMENTAL=0 LD_LIBRARY_PATH=$SYS/lib SA_RT="$V/.work/rt/libsa_rt.rmeta" RUSTC_WORKSPACE_WRAPPER="$V/.work/sa/release/ariadne-sa"
  (cd /repo && cargo check -q --lib --bins --offline --target-dir "$V/.work/tgt")
fi
