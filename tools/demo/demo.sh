#!/bin/bash
# Builds and runs demo.rs against the mortal crate in the current directory.
here=$(cd "$(dirname "$0")" && pwd)
repo=$(pwd)
dir=$(mktemp -d) || exit 3
trap 'rm -r -- "$dir"' EXIT
mkdir "$dir/src"
cp "$here/demo.rs" "$dir/src/main.rs"
cp "$here/common.rs" "$dir/src/common.rs"
cat > "$dir/Cargo.toml" <<T
[package]
name = "demo"
version = "0.1.0"
edition = "2018"
[workspace]
[dependencies]
mortal = { path = "$repo" }
libc = "0.2"
T
cd "$dir" || exit 3
CARGO_TARGET_DIR="$dir/target" cargo build --offline --quiet || { echo "the demonstration does not build"; exit 4; }
timeout 60 "$dir/target/debug/demo"
