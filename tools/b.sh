#!/bin/bash
# build the explorer, errors only
cd /verif && CARGO_TARGET_DIR=/verif/mc/target RUSTFLAGS= cargo build --release --offline --quiet --message-format short --manifest-path mc/Cargo.toml 2>&1 | grep -E 'error|^src.*error' | head -${1:-60}
