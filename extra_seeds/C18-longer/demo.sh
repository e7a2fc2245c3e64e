#!/bin/bash
# Builds main.rs against the elinor in the current directory and runs it.
set -e
D=$(cd "$(dirname "$0")" && pwd)
R=$(pwd)
W=$(mktemp -d)
trap 'rm -rf "$W"' EXIT
mkdir "$W/src"
cp "$D/main.rs" "$W/src/main.rs"
cp "$R/Cargo.lock" "$W/Cargo.lock"
cat > "$W/Cargo.toml" <<EOF
[package]
name = "demo"
version = "0.1.0"
edition = "2021"

[workspace]

[dependencies]
elinor = { path = "$R", features = ["serde"] }
serde_json = "1"
EOF
cd "$W"
CARGO_TARGET_DIR="$W/target" cargo run --offline --quiet
