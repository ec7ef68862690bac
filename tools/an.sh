#!/bin/bash
# development helper: an.sh FEATURES OBLIGATIONS
cd /verif/harness; touch src/lib.rs
CARGO_INCREMENTAL=0 CARGO_TARGET_DIR=/tmp/ht LD_LIBRARY_PATH=$(rustc +nightly --print sysroot)/lib RUSTFLAGS="-Zalways-encode-mir -Zmir-opt-level=0 -Zub-checks=no $EXTRA" RUSTC_WORKSPACE_WRAPPER=/verif/analyzer/target/release/pm2-analyzer PM2_ANALYZE=1 PM2_OBLIGATIONS=$2 PM2_OUT=/tmp/out.json cargo +nightly check --offline --features "$1" 2>&1 | grep -v "^warning: unused\|Compiling\|Checking\|Finished"
