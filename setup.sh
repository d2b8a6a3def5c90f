#!/bin/bash
# Everything is built by the checks themselves, from /repo's working tree;
# this only verifies that the toolchain the checks use is present.
set -e
cd "$(dirname "$0")"
export RUSTUP_TOOLCHAIN=1.90.0
cargo --version
rustc --version
python3 --version
mkdir -p evidence replays
