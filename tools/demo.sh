#!/usr/bin/env bash
# Builds main.rs against the rexecutor of the current directory and runs it in a scratch folder.
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
d=$(mktemp -d) || exit 3
trap 'rm -rf "$d"' EXIT
mkdir "$d/src"
cp "$here/main.rs" "$d/src/main.rs"
cp "$repo/Cargo.lock" "$d/Cargo.lock"
cat >"$d/Cargo.toml" <<T
[package]
name = "demo"
version = "0.0.0"
edition = "2024"
[dependencies]
rexecutor = { path = "$repo/rexecutor" }
async-trait = "0.1"
chrono = { version = "0.4", features = ["serde"] }
cron = "0.16"
futures = "0.3"
serde = { version = "1", features = ["derive"] }
serde_json = "1"
tokio = { version = "1", features = ["rt", "rt-multi-thread", "macros", "sync", "time"] }
[workspace]
T
cd "$d" && CARGO_TARGET_DIR="$d/target" CARGO_INCREMENTAL=0 timeout 280 cargo run --offline -q
