#!/bin/bash
# Build every checker once, offline, from the committed files.
set -eu
cd "$(dirname "$0")"
export CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never RUSTUP_TOOLCHAIN=stable RUSTC_WRAPPER=
mkdir -p harness/target evidence
cd harness
RUSTFLAGS="${RUSTFLAGS:--Awarnings}" cargo build --release --offline --locked --bins
# the build with overflow checks (see check.sh)
RUSTFLAGS="${RUSTFLAGS:--Awarnings}" cargo build --profile checked --offline --locked --bin c01 --bin c04 --bin c10 --bin c11 --bin c15 --bin c17 --bin c20 --bin c22 --bin c23
# the serial half of C19
RUSTFLAGS="${RUSTFLAGS:--Awarnings}" cargo build --release --offline --locked --no-default-features --bin c19 --target-dir "$PWD/target/serial"
