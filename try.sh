#!/bin/bash
cd /verif/harness && RUSTFLAGS="--cfg louis_verif -Awarnings" LOUIS_VERIF_PROBE=/verif/harness/probes/none.rs CARGO_TARGET_DIR=/verif/build/target cargo build --offline -q --bin try && /verif/build/target/debug/try "$@"
