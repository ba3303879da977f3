#!/bin/bash
# Builds the harness crates from the committed files (offline).
set -eu
cd "$(dirname "$0")/.."
export RUSTUP_TOOLCHAIN=nightly-2026-05-18 CARGO_NET_OFFLINE=true
unset RUSTFLAGS || true
for d in harness/*/; do
  c=$(basename "$d")
  [ "$c" = common ] && continue
  (cd "$d" && CARGO_TARGET_DIR="$PWD/../../.build/$c" cargo build --offline -q)
done
