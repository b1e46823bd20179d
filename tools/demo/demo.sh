#!/bin/bash
# run in the repository: builds main.rs against it and runs it
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
tmp=$(mktemp -d)
trap 'rm -rf "$tmp"' EXIT
mkdir -p "$tmp/src"
cp "$here"/*.rs "$tmp/src/"
cp "$here/Cargo.lock" "$tmp/"
cat > "$tmp/Cargo.toml" <<T
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[workspace]
[dependencies]
rsasl = { path = "$repo", features = ["provider", "provider_base64", "testutils", "unstable_custom_mechanism"] }
base64 = "0.22.1"
sha1 = "0.10.6"
sha2 = "0.10.8"
hmac = "0.12.1"
core2 = { version = "0.4.0", default-features = false }
pbkdf2 = { version = "0.12.2", default-features = false }
serde_json = "1.0.128"
T
export RUSTUP_TOOLCHAIN=1.82.0
export CARGO_TARGET_DIR=${DEMO_TARGET:-$tmp/target}
cd "$tmp" && cargo build --offline -q && timeout 100 "$CARGO_TARGET_DIR/debug/demo"
