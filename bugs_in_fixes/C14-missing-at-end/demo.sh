#!/bin/bash
# Exits 0 if what main.rs asserts holds in each of these configurations of the crate in the current directory.
here=$(cd "$(dirname "$0")" && pwd); repo=$PWD
d=$(mktemp -d /tmp/demo-XXXXXX) || exit 2
trap 'rm -rf "$d"' EXIT
mkdir "$d/src" && cp "$here/main.rs" "$d/src/main.rs" && cp "$repo/Cargo.lock" "$d/" && cd "$d" || exit 2
for c in 'stable-x86_64-unknown-linux-gnu|pemdas compile-time-optimizations'; do
  features=$(echo "${c#*|}" | sed 's/[^ ]*/"&"/g; s/ /, /g')
  cat > Cargo.toml <<T
[package]
name = "demo"
version = "0.0.0"
edition = "2021"
[dependencies]
xprs = { path = "$repo", default-features = false, features = [$features] }
miette = { version = "7.2.0", features = ["fancy-no-backtrace"] }
[profile.dev]
debug = 0
[workspace]
T
  export RUSTUP_TOOLCHAIN=${c%%|*} CARGO_TARGET_DIR="$d/target" CARGO_NET_OFFLINE=true
  cargo build --offline -q || exit 3
  timeout -s KILL 60 "$d/target/debug/demo" || exit 1
done
