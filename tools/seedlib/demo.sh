#!/bin/bash
# Builds the small program beside this file against the crate in the current directory and runs it.
here="$(cd "$(dirname "$0")" && pwd)"
repo="$PWD"
d="$(mktemp -d)"
trap 'rm -rf "$d"' EXIT
mkdir -p "$d/src"
cp "$here"/*.rs "$d/src/"
cp "$here/Cargo.lock.txt" "$d/Cargo.lock"
cat > "$d/Cargo.toml" <<T
[package]
name = "monitor"
version = "0.1.0"
edition = "2021"
[dependencies]
cosmian_findex = { path = "$repo", features = ["in_memory"] }
cosmian_crypto_core = { version = "9.3.0", default-features = false, features = ["aes", "sha3", "ser"] }
async-trait = "0.1"
tiny-keccak = { version = "2.0.2", features = ["kmac", "sha3", "shake"] }
[workspace]
[profile.dev]
debug = false
incremental = false
T
# A demonstration on a large index is built with optimisations.
grep -q '^// release' "$here/main.rs" && echo 'opt-level = 2' >> "$d/Cargo.toml"
export CARGO_TARGET_DIR="$d/target" CARGO_NET_OFFLINE=true
unset RUSTFLAGS
(cd "$d" && cargo build --offline -q) || { echo "demo does not build"; exit 3; }
timeout 200 "$d/target/debug/monitor"
