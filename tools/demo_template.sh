#!/bin/bash
# Runs demo.rs (beside this script) against the contracts in /repo, in a scratch directory of its own.
here="$(cd "$(dirname "$0")" && pwd)"
source /opt/vp/env.sh
python3 /opt/vp/prepare.py || exit 3
tmp="$(mktemp -d /tmp/demo.XXXXXX)"
trap 'rm -rf -- "$tmp"' EXIT
mkdir -p "$tmp/src"
cp "$here/demo.rs" "$tmp/src/main.rs"
cp /opt/vp/ws/Cargo.lock "$tmp/Cargo.lock"
{
  printf '[package]\nname = "demo"\nversion = "0.1.0"\nedition = "2021"\nresolver = "1"\n[workspace]\n[dependencies]\n'
  for c in aggregate-verifier connection-router gateway multisig multisig-prover rewards service-registry voting-verifier; do
    printf '%s = { path = "/opt/vp/ws/contracts/%s", features = ["library"] }\n' $c $c
  done
  printf 'batching = { path = "/opt/vp/ws/contracts/batching" }\nnexus-gateway = { path = "/opt/vp/ws/contracts/nexus-gateway" }\n'
  printf 'axelar-wasm-std = { path = "/opt/vp/ws/packages/axelar-wasm-std" }\nconnection-router-api = { path = "/opt/vp/ws/packages/connection-router-api" }\n'
  printf 'cosmwasm-std = "1.3.3"\ncw-multi-test = "0.15.1"\nanyhow = "1.0"\nserde_json = "1.0.89"\nserde = "1"\nhex = "0.4.3"\nk256 = { version = "0.13.1", features = ["ecdsa"] }\ned25519-zebra = "3"\nsha3 = "0.10.8"\n'
} > "$tmp/Cargo.toml"
export CARGO_TARGET_DIR="$tmp/target" CARGO_INCREMENTAL=0
cd "$tmp" && cargo build --offline -q 2> "$tmp/log" || { tail -30 "$tmp/log"; exit 3; }
RUST_BACKTRACE=0 timeout 120 "$tmp/target/debug/demo"
