#!/bin/bash
# Builds demo.rs against the folia crate in the current directory and runs it (exit 0: behaves as promised).
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
t=$(mktemp -d)
trap 'rm -rf "$t"' EXIT
mkdir "$t/src"
cp "$here/demo.rs" "$t/src/main.rs"
[ -e "$repo/Cargo.lock" ] && cp "$repo/Cargo.lock" "$t/Cargo.lock"
cat > "$t/Cargo.toml" <<EOF
[package]
name = "demo"
version = "0.1.0"
edition = "2018"
[dependencies]
folia = { path = "$repo" }
[workspace]
EOF
cd "$t" || exit 1
export CARGO_TARGET_DIR="${DEMO_TARGET:-$t/target}" CARGO_NET_OFFLINE=true
cargo build --offline -q 2>"$t/log" || { cat "$t/log"; exit 3; }
exec timeout 60 "$CARGO_TARGET_DIR/debug/demo"
