#!/bin/bash
# builds and runs demo.rs (beside this file) against the library in the current directory
d=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
t=$(mktemp -d) || exit 1
trap 'rm -rf "$t"' EXIT
mkdir "$t/src"
cp "$d/demo.rs" "$t/src/main.rs"
[ -f "$repo/Cargo.lock" ] && cp "$repo/Cargo.lock" "$t/Cargo.lock"
cat > "$t/Cargo.toml" <<T
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[features]
default = ["std"]
std = []
[dependencies]
asn1-rs = { path = "$repo", features = ["bigint", "datetime"] }
[workspace]
T
cd "$t" || exit 1
export CARGO_NET_OFFLINE=true CARGO_TARGET_DIR="$t/target" RUSTUP_TOOLCHAIN=1.95.0
cargo build --offline --quiet || exit 1
timeout 60 "$t/target/debug/demo"
