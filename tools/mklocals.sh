#!/bin/sh
# units/locals.txt: the variables each function binds, in the source the contracts were written for
cd /repo && RUSTUP_TOOLCHAIN=nightly CARGO_TARGET_DIR=/verif/build/expand cargo rustc --offline --quiet -p miniserde --lib -- -Zunpretty=expanded -Awarnings > /verif/build/locals.rs &&
/verif/vx/target/release/vx --expanded /verif/build/locals.rs --list-locals > /verif/units/locals.txt
