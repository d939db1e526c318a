#!/bin/bash
# Checks build everything they need from /repo's current tree themselves; setup only verifies that
# the offline toolchain can build the explorer (its output also warms the build directory).
set -e
cd "$(dirname "$0")"
mkdir -p evidence
export CARGO_NET_OFFLINE=true
unset CARGO_TARGET_DIR RUSTFLAGS
cd mc && cargo build --release --offline --locked
