#!/bin/bash
# builds the whole crate from ./src against stand-in dependencies (kit.tgz) and runs demo.rs
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD; [ -d "$repo/src/System" ] || repo=/repo
w=$(mktemp -d); trap 'rm -rf "$w"' EXIT
tar -C "$w" -xzf "$here/kit.tgz"
cp -r "$repo/src" "$w/src"; ln -s "$repo/samples" "$w/samples"
cp "$here/demo.rs" "$w/demo.rs"
cd "$w" && CARGO_TARGET_DIR="$w/target" cargo build --offline --quiet --bin demo || exit 2
"$w/target/debug/demo"
