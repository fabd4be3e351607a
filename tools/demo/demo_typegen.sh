#!/bin/bash
# Builds main.rs, which uses the typegen macro of the repository in the current directory, and runs it.
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
d=$(mktemp -d) || exit 2
trap 'rm -rf "$d"' EXIT
mkdir "$d/src"
cp "$here"/*.rs "$d/src/"
cp "$repo/Cargo.lock" "$d/"
cat > "$d/Cargo.toml" <<T
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[workspace]
[dependencies]
bluejay-typegen = { path = "$repo/bluejay-typegen", features = ["serde", "miniserde"] }
serde_json = "1.0"
[profile.dev]
debug = 0
T
cd "$d" && CARGO_TARGET_DIR="$d/target" cargo run --offline -q 2>"$d/err"
r=$?
[ $r = 0 ] || tail -20 "$d/err"
exit $r
