#!/bin/bash
# Builds every monitor once, offline, from the committed files and /repo's working tree.
set -e
cd "$(dirname "$0")/harness"
RUSTFLAGS="--cap-lints allow" CARGO_TARGET_DIR="$PWD/../target" cargo build --offline --features all
