#!/bin/bash
# Builds the concurrency harness with instrumentation but with our runtime.
set -e
export HOME=/root PATH=/root/.cargo/bin:$PATH CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never
cd "$(dirname "$0")/conc"
export RUSTFLAGS="-Zsanitizer=thread -Zexternal-clangrt"
exec cargo +nightly build --release --offline -Zbuild-std=std,panic_unwind --target x86_64-unknown-linux-gnu --target-dir "${MC_BUILD:-/verif/build}/conc"
