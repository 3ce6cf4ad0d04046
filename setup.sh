#!/bin/bash
# builds the explorer (and so checks that the toolchain and the crate cache are there)
cd "$(dirname "$0")" || exit 1
export CARGO_TARGET_DIR="$PWD/mc/target"
cargo build --release --offline --quiet --manifest-path mc/Cargo.toml 2>&1 | tail -20
exit "${PIPESTATUS[0]}"
