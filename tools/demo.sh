#!/bin/bash
# Runs main.rs (beside this file) against the crate in the current directory.
# exit 0: the property holds in what main.rs looks at.
set -u
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
d=$(mktemp -d)
trap 'rm -rf "$d"' EXIT
mkdir -p "$d/src"
cp "$here/main.rs" "$d/src/main.rs"
cp "$repo/Cargo.lock" "$d/Cargo.lock"
cat > "$d/Cargo.toml" <<T
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[workspace]
[dependencies]
onion-pir = { path = "$repo" }
rand = "0.8.5"
rand_chacha = "0.3.1"
num-bigint = "0.4.3"
num-traits = "0.2.15"
ndarray = "0.15.6"
[profile.release]
debug-assertions = false
T
cd "$d" || exit 3
export RUSTFLAGS="--cfg onion_verif -Awarnings" CARGO_TARGET_DIR="$d/target"
cargo build -q --release --offline || exit 3
timeout 200 "$d/target/release/demo"
