#!/bin/bash
# dev helper: run the analyser on the roots
export LD_LIBRARY_PATH=$(rustc +nightly --print sysroot)/lib
export CARGO_INCREMENTAL=0
export RUSTFLAGS="-Zalways-encode-mir -Zmir-opt-level=0 -Coverflow-checks=on -Cdebug-assertions=on"
export RUSTC_WRAPPER=/verif/target/absint/release/absint
export ABSINT_PROP=$1
cd /verif/roots
rm -rf /verif/target/roots/debug/build/infrared /verif/target/roots/debug/build/roots
cargo +nightly check --offline --features $(echo $1 | cut -c1-3) --target-dir /verif/target/roots 2>&1
