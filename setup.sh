#!/bin/sh
# Checks build what they need themselves; this only makes sure the toolchain is there.
cd "$(dirname "$0")" && cargo kani --version && (cd obl && CARGO_NET_OFFLINE=true cargo build --release --offline --bin replay --target-dir ../.build/native)
