#!/bin/bash
# run in the repository; builds main.rs beside this file against it in a scratch directory
set -eu
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
d=$(mktemp -d)
trap 'rm -rf "$d"' EXIT
mkdir "$d/src"
cp "$here/main.rs" "$d/src/main.rs"
cp "$repo/Cargo.lock" "$d/Cargo.lock"
cat >"$d/Cargo.toml" <<T
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[dependencies]
dess = { path = "$repo/dess" }
dess-examples = { path = "$repo/dess-examples" }
serde = { version = "1", features = ["derive"] }
serde_json = "1"
anyhow = "1"
[features]
pyo3 = []
[workspace]
T
cd "$d"
CARGO_TARGET_DIR="$d/target" cargo build --offline --quiet
exec_dir="$d/run"
mkdir "$exec_dir"
cd "$exec_dir"
timeout 60 "$d/target/debug/demo"
