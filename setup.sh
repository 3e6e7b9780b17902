#!/bin/bash
cd "$(dirname "$0")/harness" || exit 2
export RUSTUP_TOOLCHAIN=stable CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never
cargo build -q --release --offline --bins
