#!/bin/bash
# builds the MIR extractor (offline); every check builds it again when its target folder is missing
set -e
export HOME=/root PATH="/root/.cargo/bin:$PATH" RUSTUP_TOOLCHAIN=nightly-x86_64-unknown-linux-gnu CARGO_NET_OFFLINE=true RUSTC_WRAPPER=
cd "$(dirname "$0")/driver" && cargo build -q --offline
