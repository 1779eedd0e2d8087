#!/bin/bash
# symbolic build: whole-program LLVM IR of the harness crate linked with /repo
set -e
cd "$(dirname "$0")/sym"
export CARGO_NET_OFFLINE=true RUSTUP_TOOLCHAIN=stable RUSTC_WRAPPER= CARGO_INCREMENTAL=0
T=${1:-../target/sym}
rm -f "$T"/release/deps/wzh.wzh.*
RUSTFLAGS="--cfg wzsym --cfg aes_force_soft -C no-vectorize-loops -C no-vectorize-slp -C save-temps" \
  cargo rustc --release --target-dir "$T" 2>&1 | tail -30
BC=$(ls "$T"/release/deps/wzh.wzh.*-cgu.0.rcgu.bc 2>/dev/null || true)
if [ -z "$BC" ]; then [ -f "$T/wzh.ll" ]; exit 0; fi
"$(rustc --print sysroot)/lib/rustlib/x86_64-unknown-linux-gnu/bin/llvm-dis" "$BC" -o "$T/wzh.ll"
rm -f "$T"/release/deps/*.rcgu.* "$T"/release/deps/*.bc
