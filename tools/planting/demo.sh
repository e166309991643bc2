#!/bin/bash
# Builds the program beside this script against the crates in the working
# directory and runs it. All files are made in a scratch directory.
here=$(cd "$(dirname "$0")" && pwd)
repo=$(pwd)
export PATH="$HOME/.cargo/bin:$PATH" RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu
export CARGO_NET_OFFLINE=true CARGO_INCREMENTAL=1 CARGO_PROFILE_DEV_DEBUG=line-tables-only RUSTC_WRAPPER=
scratch=$(mktemp -d /tmp/demo.XXXXXX)
trap 'rm -rf "$scratch"' EXIT
cp "$here/main.rs" "$scratch/main.rs"
cp "$repo/Cargo.lock" "$scratch/Cargo.lock"
sed "s#@REPO@#$repo#" "$here/Cargo.toml.in" > "$scratch/Cargo.toml"
export CARGO_TARGET_DIR="$repo/target"
cargo build --offline --manifest-path "$scratch/Cargo.toml" 2>"$scratch/build.log" || { tail -30 "$scratch/build.log"; exit 3; }
cp "$repo/target/debug/demo" "$scratch/demo"
mkdir "$scratch/run"; cd "$scratch/run" || exit 3
timeout 120 "$scratch/demo" "$repo"
