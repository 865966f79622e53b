#!/bin/bash
# dev helper: build the analyser
cd /verif/absint && cargo +nightly build --release --offline --target-dir /verif/target/absint 2>&1 | grep -E "^error" -A8 | head -60
