#!/bin/bash
# replay.sh FILE: runs the failing input recorded by a check against the current /repo
set -e
cd "$(dirname "$0")"
CARGO_TARGET_DIR="${VX_BUILD:-$PWD/.build}/harness" cargo build --offline -q --manifest-path harness/Cargo.toml
exec "${VX_BUILD:-$PWD/.build}/harness/debug/vh" replay "$1"
