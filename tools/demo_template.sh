#!/bin/bash
# run with cwd = the repository; builds demo.rs (beside this file) against it in a scratch directory
D=$(cd "$(dirname "$0")" && pwd)
R=$PWD
T=$(mktemp -d)
trap 'rm -rf "$T"' EXIT
mkdir -p "$T/src"
cat > "$T/Cargo.toml" <<X
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[dependencies]
rust-cp = { path = "$R" }
[workspace]
X
cp "$D/demo.rs" "$T/src/main.rs"
export RUSTUP_TOOLCHAIN=stable CARGO_NET_OFFLINE=true RUSTC_WRAPPER= CARGO_TARGET_DIR="$T/target"
cd "$T" && cargo run --offline --quiet
