#!/bin/bash
# Builds main.rs (beside this script) against the crate in the current directory and runs it in a scratch folder.
HERE=$(cd "$(dirname "$0")" && pwd)
REPO=$PWD
export PATH=/root/.cargo/bin:/usr/local/cargo/bin:$PATH
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu CARGO_NET_OFFLINE=true RUSTC_WRAPPER=
W=$(mktemp -d)
trap 'rm -rf "$W"' EXIT
mkdir "$W/src"
cp "$HERE/main.rs" "$W/src/main.rs"
cp "$REPO/Cargo.lock" "$W/Cargo.lock"
cat > "$W/Cargo.toml" <<T
[package]
name = "demo"
version = "0.0.0"
edition = "2021"
[dependencies]
rdf-types = { path = "$REPO", features = ["contextual", "serde"] }
iref = { version = "3", features = ["macros"] }
langtag = "0.4"
serde = "1"
[workspace]
T
cd "$W" && CARGO_TARGET_DIR="$W/target" timeout 280 cargo run --offline -q
