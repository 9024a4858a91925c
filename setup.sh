#!/bin/bash
# Builds the extractor and the harness from the committed files (offline).
set -e
cd "$(dirname "$0")"
CARGO_TARGET_DIR="$PWD/.build/tool" cargo build --offline -q --manifest-path tool/Cargo.toml
CARGO_TARGET_DIR="$PWD/.build/harness" cargo build --offline -q --manifest-path harness/Cargo.toml
verus --version >/dev/null
