#!/bin/bash
# run_dump.sh OUTDIR : builds the MIR extractor and dumps the monomorphised MIR of /verif/harness
# (which pulls in /repo's current source) to OUTDIR/mir.json
set -e
export HOME=/root PATH="/root/.cargo/bin:$PATH"
export RUSTUP_TOOLCHAIN=nightly-x86_64-unknown-linux-gnu CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never RUSTC_WRAPPER=
out=$(realpath -m "$1"); here=$(cd "$(dirname "$0")" && pwd)
mkdir -p "$out"
(cd "$here/driver" && cargo build -q --offline)
export LD_LIBRARY_PATH="$(rustc --print sysroot)/lib"
export RUSTFLAGS="-Zalways-encode-mir -Zmir-opt-level=0 -Cdebug-assertions=off -Coverflow-checks=off --cap-lints allow"
export CARGO_TARGET_DIR="$out/target" RUSTC_WORKSPACE_WRAPPER="$here/driver/target/debug/mirdump"
export MIRDUMP_CRATE=vharness MIRDUMP_OUT="$out/mir.json"
rm -f "$out/mir.json"; rm -rf "$out"/target/debug/build/vharness* "$out"/target/debug/.fingerprint/vharness-*
cd "$here/harness" && cargo check -q --offline
test -s "$out/mir.json"
