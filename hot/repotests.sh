#!/bin/bash
# Runs the repository's own hotmeal and hotmeal-server tests against the stand-ins (validation only).
cd /verif/hot || exit 2
export CARGO_NET_OFFLINE=true DATATEST_ROOT=/repo/hotmeal/tests/roundtrip-cases
cargo test --release --offline -p hotmeal -p hotmeal-server --no-fail-fast 2>&1 | grep -E "^error|test result|FAILED|failed|panicked" -A3
