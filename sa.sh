#!/bin/bash
# development: sa.sh ENV=... ; runs the analyser over /repo with the environment given
V=$(dirname "$(realpath "$0")")
bash "$V/setup.sh" || exit 2
SYS=$(RUSTUP_TOOLCHAIN=nightly rustc --print sysroot)
REPO=${SA_REPO:-/repo}
T=${SA_TGT:-$V/.work/tgt}
rm -rf "$T"/debug/build/ariadne-dns "$T"/debug/build/play "$T"/debug/.fingerprint/ariadne* "$T"/debug/incremental
cd "$REPO"
export CARGO_PROFILE_DEV_DEBUG_ASSERTIONS=false CARGO_PROFILE_DEV_OVERFLOW_CHECKS=true RUST_MIN_STACK=${RUST_MIN_STACK:-2000000000} RUSTUP_TOOLCHAIN=nightly LD_LIBRARY_PATH=$SYS/lib SA_RT=$V/.work/rt/libsa_rt.rmeta RUSTC_WORKSPACE_WRAPPER=$V/.work/sa/release/ariadne-sa CARGO_NET_OFFLINE=true CARGO_INCREMENTAL=0
unset RUSTFLAGS
cargo check -q ${SA_ARGS:---lib} --offline --target-dir "$T"
