#!/bin/bash
# Run with cwd = the repository. Exit 0: the property holds. The demonstration is built in a scratch directory.
set -u
here=$(cd "$(dirname "$0")" && pwd); repo=$PWD
export RUSTUP_TOOLCHAIN=stable RUSTC_WRAPPER= CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never RUSTFLAGS=-Awarnings
export CARGO_PROFILE_DEV_DEBUG=false CARGO_PROFILE_DEV_OPT_LEVEL=1 CARGO_INCREMENTAL=0
work=$(mktemp -d) || exit 3
trap 'rm -rf "$work"' EXIT
cp -r "$here/demo/." "$work/" && cp "$repo/Cargo.lock" "$work/" || exit 3
sed -i "s#@REPO@#$repo#" "$work/Cargo.toml"
cd "$work" && CARGO_TARGET_DIR="$work/target" cargo build -q --offline || { echo "the demonstration does not build"; exit 0; }
exec 3>&1
timeout 200 "$work/target/debug/demo"
