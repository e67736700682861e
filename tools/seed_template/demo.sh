#!/bin/bash
# Run in the repository's root after its build: exit 0 if the property holds for this input.
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
s=$(mktemp -d /tmp/ifcdemo.XXXXXX) || exit 3
trap 'rm -rf "$s"' EXIT
mkdir "$s/src"
cp "$here/main.rs" "$s/src/main.rs"
cp "$here/Cargo.lock" "$s/Cargo.lock"
sed "s|@REPO@|$repo|" "$here/Cargo.toml.in" >"$s/Cargo.toml"
export PATH="/root/.cargo/bin:$PATH" CARGO_NET_OFFLINE=true RUSTFLAGS=-Awarnings
export CARGO_TARGET_DIR="$s/target"
(cd "$s" && cargo build --offline -q) || exit 4
timeout 120 "$s/target/debug/demo"
