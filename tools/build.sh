#!/bin/sh
cd /verif/sim && CARGO_TARGET_DIR=/verif/target RUSTC_WRAPPER=/verif/sim/rustc-wrap.sh cargo build --offline "$@" 2>&1
