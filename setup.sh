#!/bin/sh
# builds the extractor and the bounded layer, offline
cd /verif || exit 1
export CARGO_NET_OFFLINE=true
mkdir -p build
(cd vx && cargo build --release --offline --quiet) >build/setup.log 2>&1 || { cat build/setup.log; exit 1; }
(cd harness && CARGO_TARGET_DIR=/verif/build/harness cargo build --release --offline --quiet) >build/setup.log 2>&1 || { cat build/setup.log; exit 1; }
# float facts (DESIGN.md section 7): warms the build; a failure here only shows up in the evidence
(cd kani && timeout 300 cargo kani --target-dir /verif/build/kani --output-format terse) >build/kani.log 2>&1
true
