#!/bin/bash
# builds the harness against /repo's working tree
cd "$(dirname "$0")/harness" || exit 1
export RUSTUP_TOOLCHAIN=1.76.0 CARGO_INCREMENTAL=0 CARGO_NET_OFFLINE=true
exec cargo build --offline --locked --bins
