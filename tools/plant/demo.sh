#!/bin/bash
# Builds demo.rs against the crate in the current directory and runs it: exit 0 if the property holds there.
set -u
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
d=$(mktemp -d) || exit 99
trap 'rm -rf -- "${d:?}"' EXIT
mkdir "$d/src"
cp "$here"/*.rs "$d/src/"
mv "$d/src/demo.rs" "$d/src/main.rs"
cp "$here/demo.lock" "$d/Cargo.lock"
sed "s#@REPO@#$repo#" "$here/demo.toml" > "$d/Cargo.toml"
flags="-C target-cpu=x86-64"
grep -qw avx2 /proc/cpuinfo && flags="$flags -C target-feature=+avx2"
cd "$d" || exit 99
RUSTFLAGS="$flags" CARGO_INCREMENTAL=0 CARGO_TARGET_DIR="$d/target" cargo build --offline --quiet || exit 98
DEMO_DIR="$here" timeout 120 "$d/target/debug/demo"
