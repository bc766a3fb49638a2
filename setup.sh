#!/bin/bash
# build the machinery once (checks rebuild what changed)
cd "$(dirname "$0")" || exit 3
export CARGO_TARGET_DIR="$PWD/target" CARGO_NET_OFFLINE=true PYO3_PYTHON=/usr/bin/python3.12
mkdir -p target evidence replays
for c in mc shapes accept pyref; do cargo build --release --offline --manifest-path $c/Cargo.toml || exit 1; done
CARGO_TARGET_DIR=$PWD/target/prog/plain cargo check --offline --manifest-path accept/prog/Cargo.toml || exit 1
CARGO_TARGET_DIR=$PWD/target/prog/py cargo check --offline --manifest-path accept/prog/Cargo.toml --features pyo3 || exit 1
CARGO_TARGET_DIR=$PWD/target/pymod cargo build --offline -p dess-examples-pyo3 --manifest-path /repo/Cargo.toml || exit 1
