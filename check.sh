#!/bin/bash
# check.sh PROPERTY quick|thorough   (cwd /verif)
cd "$(dirname "$0")" || exit 2
export VERIF_ROOT="$PWD"
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu
export CARGO_TARGET_DIR="$PWD/symx/target"
export VERIF_SEED="${VERIF_SEED:-1}" VERIF_TIER="$2"
log=$(mktemp)
if ! (cd symx && cargo build --release --offline) >"$log" 2>&1; then
  tail -n 40 "$log"; rm -f "$log"
  echo "the harness does not build against /repo"; exit 2
fi
rm -f "$log"
exec ./symx/target/release/symx check "$1" "$2"
