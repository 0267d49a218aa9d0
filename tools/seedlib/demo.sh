#!/bin/bash
# Run with cwd = the repository. Exit 0: behaviour as promised, otherwise the change shows.
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
T=$(mktemp -d) || exit 99
trap 'rm -rf "$T"' EXIT
mkdir "$T/src"
cp "$here"/*.rs "$T/src/"
[ -f Cargo.lock ] && cp Cargo.lock "$T/"
cat > "$T/Cargo.toml" <<TOML
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[workspace]
[dependencies]
rqrr = { path = "$repo"@FEAT@ }
@DEPS@
[profile.dev]
opt-level = 2
debug = false
TOML
cd "$T" || exit 99
CARGO_TARGET_DIR="$T/target" timeout 280 cargo run --offline -q
