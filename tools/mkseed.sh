#!/bin/bash
# mkseed.sh ID LEVEL : turns the current uncommitted change of /repo into
# seeded/ID (patch, demo scaffold); main.rs and meta.json must be there already.
# LEVEL: core|prim|circ|pcd selects the crates the demonstration links.
set -e
id=$1 level=$2
root=$(cd "$(dirname "$0")/.." && pwd)
d=$root/seeded/$id
[ -f $d/main.rs ] && [ -f $d/meta.json ]
w=$(mktemp -d /tmp/mkseed-XXXXXX)
mkdir -p $w/demo/src
cp -r $root/shim $w/shim
crates="core arithmetic macros pasta"
case $level in prim) crates="$crates primitives";; circ) crates="$crates primitives circuits";; pcd) crates="$crates primitives circuits pcd testing";; esac
{
cat <<T
[package]
name = "demo"
version = "0.1.0"
edition = "2024"
[workspace]
[dependencies]
T
for c in $crates; do f=; [ $c = pasta ] && f=', features = ["baked"]'; echo "ragu_$c = { path = \"/repo/crates/ragu_$c\"$f }"; done
cat <<T
ff = { version = "0.14.0-pre.0", default-features = false }
group = { version = "*" }
rand = "0.10"
[profile.dev]
opt-level = 1
debug = 0
incremental = false
[patch.crates-io]
T
for s in ff group pasta_curves blake2b_simd; do echo "$s = { path = \"../shim/$s\" }"; done
} > $w/demo/Cargo.toml
sed -i 's/group = { version = "\*" }/group = { version = "'$(sed -n 's/^version = "\(.*\)"/\1/p' $root/shim/group/Cargo.toml | head -1)'" }/' $w/demo/Cargo.toml
cp $d/main.rs $w/demo/src/main.rs
cp $root/tools/demo/rec.rs $w/demo/src/rec.rs
(cd $w/demo && RUSTUP_TOOLCHAIN=1.90.0 cargo generate-lockfile --offline -q)
rm $w/demo/src/main.rs
tar czf $d/base.tgz --sort=name --mtime=2020-01-01 --owner=0 --group=0 -C $w demo shim
cp $root/tools/demo/demo.sh $d/demo.sh
if ! git -C /repo diff --quiet; then git -C /repo diff > $d/patch.diff; git -C /repo checkout -q -- .; fi
rm -rf $w
echo "seed $id"
