#!/usr/bin/env bash
# Build the conformance harness once, so that later checks only rebuild what depends on /repo.
set -e
cd "$(dirname "$0")/harness"
export CARGO_TARGET_DIR="$PWD/../build/target"
cargo build --offline --quiet
cargo build --offline --quiet --release
CARGO_TARGET_DIR="$PWD/../build/target-bare" cargo build --offline --quiet --release --no-default-features
command -v tlc >/dev/null
echo "setup done"
