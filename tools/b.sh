#!/bin/bash
# development: build, errors only
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu CARGO_TARGET_DIR=/verif/symx/target
cd /verif/symx && cargo build --release --offline >/tmp/b.log 2>&1 || { grep -A8 '^error' /tmp/b.log | head -60; exit 1; }
