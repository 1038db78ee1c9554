#!/bin/bash
# Builds the harness crates once (the checks rebuild what changed in /repo).
cd "$(dirname "$0")/.." || exit 1
export RUSTUP_TOOLCHAIN=stable CARGO_NET_OFFLINE=true
python3 tools/mirror.py || exit 1
cd harness && cargo build --offline -q --keep-going || true # a crate that does not build is its check's to report
