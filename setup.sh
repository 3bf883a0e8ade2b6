#!/bin/bash
# builds the extractor and the harness dependencies from the committed files (offline)
set -e
cd "$(dirname "$0")"
export HOME=${HOME:-/root} PATH=/root/.cargo/bin:/usr/local/cargo/bin:$PATH
export CARGO_NET_OFFLINE=true RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu
mkdir -p build evidence
(cd tools/vx && CARGO_TARGET_DIR=../../build/vxtarget cargo build --offline -q)
# warm the dependency build; a harness that does not build here is dealt with by the check itself
(cd harness && RUSTFLAGS="--cfg louis_verif -Awarnings" LOUIS_VERIF_PROBE="$PWD/probes/none.rs" \
  CARGO_TARGET_DIR=../build/target cargo build --offline -q --lib) || true
verus --version >/dev/null
echo setup done
