#!/bin/bash
# usage: run.sh  (in /repo): shows both recorded findings against the real code (each test passes while the defect exists)
set -e
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never CARGO_INCREMENTAL=0
w=$(mktemp -d /tmp/vp_demo.XXXXXX)
trap 'rm -rf "$w"' EXIT
cp -a Cargo.toml Cargo.lock sipp dh_commitments ip_proofs inner_products benches "$w"/
cat "$here/gipa.rs" >> "$w/ip_proofs/src/gipa.rs"
cat "$here/groth16.rs" >> "$w/ip_proofs/src/applications/groth16_aggregation.rs"
cd "$w"
CARGO_TARGET_DIR="$w/target" cargo test --offline -p ark-ip-proofs --lib vp_finding -- --test-threads 1 --nocapture
