#!/bin/bash
# builds the program beside this script against /repo's generic_backend, with stand-ins for neon
set -u
here="$(cd "$(dirname "$0")" && pwd)"
unset RUSTC RUSTDOC RUSTC_WRAPPER RUSTUP_TOOLCHAIN CARGO_TARGET_DIR
export PATH=/root/.cargo/bin:$PATH CARGO_NET_OFFLINE=true CARGO_INCREMENTAL=0 RUSTFLAGS="--cap-lints allow" CARGO_PROFILE_DEV_DEBUG=0
work="$(mktemp -d)"
trap 'rm -rf "$work"' EXIT
cp -a "$here/stubs" "$here/Cargo.lock" "$work/"
mkdir "$work/src"
cp "$here/main.rs" "$work/src/"
cat > "$work/Cargo.toml" <<'T'
[package]
name = "demo"
version = "0.1.0"
edition = "2018"
[workspace]
[dependencies]
serde_json = "1"
generic_backend = { path = "stubs/generic_backend" }
fall_tree = { path = "/repo/fall/tree" }
T
cd "$work" || exit 2
cargo build --offline -q || exit 3
timeout 100 ./target/debug/demo
