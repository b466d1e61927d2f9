#!/bin/bash
# Builds main.rs against the stabby of the current directory, in a scratch folder, and runs it.
here="$(cd "$(dirname "$0")" && pwd)"
repo="$PWD"
work="$(mktemp -d)" || exit 99
trap 'rm -rf "$work"' EXIT
mkdir -p "$work/src"
cp "$here/main.rs" "$work/src/main.rs"
cat > "$work/Cargo.toml" <<TOML
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[workspace]
[dependencies]
stabby = { path = "$repo/stabby", features = ["libc"] }
[profile.release]
debug-assertions = true
TOML
cp "$repo/Cargo.lock" "$work/Cargo.lock"
cd "$work" || exit 99
export CARGO_TARGET_DIR="$work/target" CARGO_NET_OFFLINE=true
cargo build --offline --release -q 2>"$work/log" || { grep -A12 "^error" "$work/log"; exit 98; }
timeout 120 "$work/target/release/demo"
