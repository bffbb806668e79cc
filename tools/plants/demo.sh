#!/bin/bash
# Runs main.rs (beside this file) against the crate in the current directory.
# Exit 0: the property holds; 1: it does not.
here="$(cd "$(dirname "$0")" && pwd)"
repo="$(pwd)"
rm -rf /tmp/xecs-demo-@ID@
mkdir -p /tmp/xecs-demo-@ID@/src
cp "$here/main.rs" /tmp/xecs-demo-@ID@/src/main.rs
cp "$repo/Cargo.lock" /tmp/xecs-demo-@ID@/Cargo.lock
cat > /tmp/xecs-demo-@ID@/Cargo.toml <<TOML
[package]
name = "demo"
version = "0.0.0"
edition = "2018"

[dependencies]
xecs = { path = "$repo" }

[workspace]
TOML
cd /tmp/xecs-demo-@ID@ || exit 2
CARGO_NET_OFFLINE=true CARGO_TARGET_DIR=/tmp/xecs-demo-@ID@/target cargo build --offline -q --message-format short >build.log 2>&1 || { cat build.log; cd /; rm -rf /tmp/xecs-demo-@ID@; exit 2; }
timeout 200 ./target/debug/demo
rc=$?
cd /
rm -rf /tmp/xecs-demo-@ID@
[ $rc -eq 0 ] || exit 1
exit 0
