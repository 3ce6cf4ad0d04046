#!/bin/bash
# usage: check.sh <property> [quick|thorough] [kernel]   |   check.sh --replay <file>
cd "$(dirname "$0")" || exit 2
export VMC_HOME="$PWD"
export CARGO_TARGET_DIR="$PWD/mc/target"
# cargo compares file times: rebuild whenever the contents differ from those of the last build
repo=$(sed -n 's/^voprf = { path = "\([^"]*\)".*/\1/p' mc/Cargo.toml)
sum=$(cd "$repo" && find src -type f | LC_ALL=C sort && cat Cargo.toml $(find src -type f | LC_ALL=C sort) | sha256sum)
if [ "$(cat mc/target/stamp 2>/dev/null)" != "$sum" ]; then
  mkdir -p mc/target
  find "$PWD/mc/target" "$PWD/probe/target" -path '*/.fingerprint/voprf-*' -type f -delete 2>/dev/null
  echo "$sum" >mc/target/stamp
fi
log=$(mktemp)
if ! cargo build --release --offline --quiet --manifest-path mc/Cargo.toml >"$log" 2>&1; then
  tail -40 "$log" >&2; echo "harness build failed" >&2; exit 2
fi
rm -f "$log"
if [ "$1" = "--replay" ]; then exec mc/target/release/vmc replay "$2"; fi
exec mc/target/release/vmc check "$1" "${2:-${VERIF_TIER:-quick}}" $3
