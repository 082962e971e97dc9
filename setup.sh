#!/bin/bash
# Builds the conformance drivers against /repo's working tree.
set -e
cd "$(dirname "$0")"
export RUSTUP_TOOLCHAIN=1.83.0-x86_64-unknown-linux-gnu CARGO_NET_OFFLINE=true PATH=/root/.cargo/bin:$PATH
cargo build --offline --manifest-path harness/Cargo.toml
