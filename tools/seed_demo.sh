#!/bin/bash
# Runs main.rs (beside this file) against the goban crate in the current directory; exit 0 iff it passes.
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
t=$(mktemp -d) || exit 2
trap 'rm -rf "$t"' EXIT
mkdir "$t/src" && cp "$here/main.rs" "$t/src/main.rs"
[ -f "$repo/Cargo.lock" ] && cp "$repo/Cargo.lock" "$t/Cargo.lock"
cat > "$t/Cargo.toml" <<T
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[workspace]
[dependencies]
goban = { path = "$repo", features = ["history", "deadstones"] }
T
cd "$t" || exit 2
CARGO_NET_OFFLINE=true CARGO_TARGET_DIR="$t/target" timeout 250 cargo run --offline -q
