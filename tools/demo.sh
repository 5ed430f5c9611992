#!/bin/bash
# Builds demo.rs (beside this script) against the library in /repo and runs it:
# exit 0 when the behaviour is right.
set -e
here=$(cd "$(dirname "$0")" && pwd)
. /opt/vp/env.sh
d=$(mktemp -d)
trap 'rm -rf "$d"' EXIT
mkdir "$d/src"
cp "$here/demo.rs" "$d/src/main.rs"
cp /opt/vp/overlay/Cargo.lock.base "$d/Cargo.lock"
cat > "$d/Cargo.toml" <<T
[package]
name = "demo"
version = "0.0.0"
edition = "2021"
[dependencies]
flowsdk = { path = "$WS", features = ["quic", "rustls-tls"] }
tokio = { version = "1", features = ["full"] }
[workspace]
T
cd "$d"
export CARGO_TARGET_DIR="$d/target"
cargo build -q --offline 2> build.log || { tail -30 build.log; exit 3; }
timeout 60 "$d/target/debug/demo"
