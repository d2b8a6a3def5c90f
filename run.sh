#!/bin/bash
# ./run.sh PROPERTY [--thorough] [--replay FILE] [--cell NAME]
# Builds the harness for one property against /repo's working tree and runs it.
# Exit: 0 held, 1 violated (VIOLATION line), anything else: no verdict.
set -u
root=$(cd "$(dirname "$0")" && pwd)
id=${1:?property}
shift
export RUSTUP_TOOLCHAIN=1.90.0 CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never
unset RUSTFLAGS CARGO_ENCODED_RUSTFLAGS RUSTDOCFLAGS CARGO_BUILD_TARGET
export VERIF_ROOT=$root VERIF_SEED=${VERIF_SEED:-1} VERIF_TIER=${VERIF_TIER:-quick}
. "$root/mc/props.sh"
props "$id" || { echo "unknown property $id" >&2; exit 3; }
target=$root/target
mkdir -p "$target"
export CARGO_TARGET_DIR=$target
# Sources may be swapped underneath an existing target directory with old
# modification times: forget what was built from different contents.
hash=$( (cd /repo && find Cargo.toml src crates -type f \( -name '*.rs' -o -name Cargo.toml \) -print0 | sort -z | xargs -0 sha256sum; echo "$PWD") | sha256sum | cut -d' ' -f1)
if [ -f "$target/.repo-hash" ] && [ "$(cat "$target/.repo-hash")" != "$hash" ]; then
    find "$target" -maxdepth 3 -path '*/.fingerprint/*' -name 'ragu*' -prune -exec rm -rf {} +
    find "$target" -maxdepth 3 -path '*/.fingerprint/*' -name 'mc_*' -prune -exec rm -rf {} +
fi
echo "$hash" > "$target/.repo-hash"
cd "$root/mc/$pkg" || exit 3
MC_SCRATCH=$(mktemp -d "${TMPDIR:-/tmp}/mc-$id-XXXXXX") || exit 3
export MC_SCRATCH
cleanup() { case "$MC_SCRATCH" in /*/mc-"$id"-??????) rm -rf "$MC_SCRATCH" ;; esac; }
# The crates that use the macros do not compile. They are to blame if everything
# else compiles with the macros of the commit this check was written for.
macros_at_fault() {
    local d=$MC_SCRATCH/swap
    mkdir -p "$d/mc" && cp -r /repo/crates "$d/crates" && cp /repo/Cargo.toml "$d/" && cp -r /repo/src "$d/src" &&
        cp -r "$root/shim" "$d/shim" && cp -r "$root/mc/kit" "$root/mc/$pkg" "$d/mc/" || return
    rm -rf "$d/crates/ragu_macros/src"
    cp -r "$root/mc/refmacros/src" "$d/crates/ragu_macros/src"
    sed -i "s|\"/repo/crates|\"$d/crates|" "$d"/mc/*/Cargo.toml
    (cd "$d/mc/$pkg" && CARGO_TARGET_DIR=$d/target cargo check --lib --bins --offline --features "$1" > "$d/log" 2>&1) || { tail -5 "$d/log" >&2; return; }
    mkdir -p "$root/replays"
    { echo "With the macros of /repo the crates that use them do not compile; with mc/refmacros in their place they do."; tail -60 "$target/build-$1.err"; } > "$root/replays/$id-build.txt"
    echo "VIOLATION property=$id replay=$root/replays/$id-build.txt"
    cleanup
    exit 1
}
# build FEATURE: leaves the executable in $exe
build() {
    local log=$target/build-$1.json
    if ! cargo build --release --offline --locked --features "$1" --message-format=json-render-diagnostics > "$log" 2> "$target/build-$1.err"; then
        tail -60 "$target/build-$1.err"
        case "$id" in M0[123]) macros_at_fault "$1" ;; esac
        echo "harness for $id does not build against /repo" >&2
        cleanup
        exit 2
    fi
    eval "$(python3 - "$log" <<'PY'
import json, sys
exe = None
for line in open(sys.argv[1]):
    if not line.startswith('{'):
        continue
    m = json.loads(line)
    if m.get('reason') != 'compiler-artifact':
        continue
    if m.get('executable'):
        exe = m['executable']
    for f in m['filenames']:
        if f.endswith('.rlib') or f.endswith('.so'):
            print("export MC_LIB_%s='%s'" % (m['target']['name'].replace('-', '_'), f))
print("exe='%s'" % exe)
PY
)"
}
if [ -n "$extra" ]; then
    build "$extra"
    cp "$exe" "$MC_SCRATCH/extra"
    export MC_EXTRA_EXE=$MC_SCRATCH/extra
fi
early=0
# first LABEL: explores what was built under that label before the rest.
first() {
    cp "$exe" "$MC_SCRATCH/first"
    (ulimit -v $((24 * 1024 * 1024)) 2>/dev/null; MC_CONFIG=$1 MC_PART=$MC_SCRATCH/part timeout -k 5 "${MC_TIMEOUT:-$limit}" "$MC_SCRATCH/first" "${@:2}")
    early=$?
    case $early in
        0) export MC_MERGE=$MC_SCRATCH/part ;;
        3) ;; # only cells of the other part were asked for
        1) cleanup; exit 1 ;;
        *) cleanup; echo "check for $id ($1) ended with status $early: no verdict" >&2; exit 2 ;;
    esac
}
if [ -n "$config" ]; then
    # The same exploration of the code built in another configuration.
    build "$feat,$config"
    first "$config" "$id" "$@"
fi
if [ -n "$also" ]; then
    cd "$root/mc/$also" || exit 3
    build "$feat"
    first "$also" "$id" "$@"
    cd "$root/mc/$pkg" || exit 3
fi
build "$feat"
export MC_DEPS=$target/release/deps MC_RUSTC=rustc MC_MANIFEST_DIR=$root/mc/$pkg
ulimit -v $((24 * 1024 * 1024)) 2>/dev/null
timeout -k 5 "${MC_TIMEOUT:-$limit}" "$exe" "$id" "$@"
rc=$?
[ $rc = 3 ] && [ -n "$config$also" ] && [ $early = 0 ] && rc=0
cleanup
[ $rc = 0 ] || [ $rc = 1 ] || { echo "check for $id ended with status $rc: no verdict" >&2; [ $rc -gt 1 ] || rc=2; }
exit $rc
