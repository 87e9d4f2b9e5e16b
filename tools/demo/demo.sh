#!/bin/bash
# Run with cwd = the repository. Builds main.rs against the library in a scratch directory.
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
t=$(mktemp -d) || exit 3
trap 'rm -rf "$t"' EXIT
mkdir "$t/src" && cp "$here/main.rs" "$t/src/main.rs"
cp "$repo/Cargo.lock" "$t/Cargo.lock"
cat > "$t/Cargo.toml" <<T
[package]
name = "demo"
version = "0.0.0"
edition = "2024"
[workspace]
[dependencies]
math-core = { path = "$repo/crates/math-core" }
T
cargo run --quiet --offline --manifest-path "$t/Cargo.toml" --target-dir "$t/target"
