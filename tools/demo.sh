#!/bin/bash
# Builds demo.rs beside this script against the crate in the current directory and runs it.
# Everything it writes stays in /tmp/imgdemo-scratch, which it creates and removes.
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
rm -rf /tmp/imgdemo-scratch
mkdir -p /tmp/imgdemo-scratch/src /tmp/imgdemo-scratch/work
cp "$here/demo.rs" /tmp/imgdemo-scratch/src/main.rs
[ -e "$repo/Cargo.lock" ] && cp "$repo/Cargo.lock" /tmp/imgdemo-scratch/
cat > /tmp/imgdemo-scratch/Cargo.toml <<T
[package]
name = "demo"
version = "0.0.0"
edition = "2021"
[workspace]
[dependencies]
image = { path = "$repo", default-features = false, features = ["png","gif","bmp","pnm","tga","ico","hdr","ff","dds","qoi","tiff","jpeg","webp"] }
T
cd /tmp/imgdemo-scratch/work
CARGO_TARGET_DIR=/tmp/imgdemo-scratch/target RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu \
  timeout 280 cargo run --offline -q --manifest-path /tmp/imgdemo-scratch/Cargo.toml
rc=$?
rm -rf /tmp/imgdemo-scratch
exit $rc
