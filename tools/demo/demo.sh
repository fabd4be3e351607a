#!/bin/bash
# Builds main.rs against the crates of the repository in the current directory and runs it.
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
d=$(mktemp -d) || exit 2
trap 'rm -rf "$d"' EXIT
mkdir "$d/src"
cp "$here"/*.rs "$d/src/"
cp "$repo/Cargo.lock" "$d/"
cat > "$d/Cargo.toml" <<T
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[workspace]
[dependencies]
bluejay-core = { path = "$repo/bluejay-core", features = ["serde_json"] }
bluejay-parser = { path = "$repo/bluejay-parser", features = ["format-errors"] }
bluejay-printer = { path = "$repo/bluejay-printer" }
bluejay-validator = { path = "$repo/bluejay-validator" }
bluejay-visibility = { path = "$repo/bluejay-visibility" }
bluejay-schema-comparator = { path = "$repo/bluejay-schema-comparator" }
serde_json = "1.0"
[profile.dev]
debug = 0
T
cd "$d" && CARGO_TARGET_DIR="$d/target" cargo run --offline -q 2>"$d/err"
r=$?
[ $r = 0 ] || tail -20 "$d/err"
exit $r
