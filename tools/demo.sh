#!/bin/bash
# Builds demo.rs (beside this file) against the crate in the current directory and runs it.
D="$(cd "$(dirname "$0")" && pwd)"
R="$PWD"
T="$(mktemp -d)"
trap 'rm -rf "$T"' EXIT
mkdir "$T/src"
cp "$D/demo.rs" "$T/src/main.rs"
cat > "$T/Cargo.toml" <<TOML
[package]
name = "demo"
version = "0.0.0"
edition = "2021"
[dependencies]
tree_iterators_rs = { path = "$R/tree_iterators_rs" }
streaming-iterator = "*"
[workspace]
TOML
CARGO_TARGET_DIR="$T/target" RUSTFLAGS=-Awarnings timeout 250 cargo run -q --offline --manifest-path "$T/Cargo.toml"
