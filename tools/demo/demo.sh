#!/bin/bash
# Builds a small program against /repo's crates (with stand-ins for the
# dependencies that cannot be fetched here) and runs it: 0 = property shown.
set -e
here=$(cd "$(dirname "$0")" && pwd)
work=$(mktemp -d /tmp/demo-XXXXXX)
trap 'case "$work" in /tmp/demo-??????) rm -rf "$work" ;; esac' EXIT
tar xzf "$here/base.tgz" -C "$work"
cp "$here/main.rs" "$work/demo/src/main.rs"
cd "$work/demo"
export RUSTUP_TOOLCHAIN=1.90.0 CARGO_NET_OFFLINE=true CARGO_TARGET_DIR=$work/target
unset RUSTFLAGS
# What the program needs of private items.
if [ -f "$here/hook.rs" ]; then export RUSTFLAGS="--cfg ragu_mc --cap-lints warn" RAGU_MC_PCD="$here/hook.rs"; fi
cargo build --offline -q 2> "$work/err" || { tail -40 "$work/err"; exit 3; }
timeout 250 "$work/target/debug/demo"
