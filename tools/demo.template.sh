#!/bin/bash
# Builds demo.rs against the graviola in the current directory and runs it: 0 = property held, nonzero = broken.
HERE=$(cd "$(dirname "$0")" && pwd); R=$PWD
W=$(mktemp -d) || exit 2
trap 'rm -rf "$W"' EXIT
mkdir "$W/src" && cp "$HERE/demo.rs" "$W/src/main.rs" && cp "$R/Cargo.lock" "$W/" || exit 2
cat > "$W/Cargo.toml" <<T
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[workspace]
[dependencies]
graviola = { path = "$R/graviola" }
$(grep -q rustls_graviola "$HERE/demo.rs" && echo "rustls-graviola = { path = \"$R/rustls-graviola\" }
rustls = { version = \"*\", default-features = false, features = [\"std\", \"tls12\"] }")
[profile.dev]
opt-level = 1
T
export PATH="/root/.cargo/bin:$PATH" CARGO_NET_OFFLINE=true CARGO_TARGET_DIR="$W/target" RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu
unset RUSTC_WRAPPER
cd "$W" && timeout 280 cargo run -q --offline
