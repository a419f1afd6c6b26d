#!/bin/bash
# build the harness the way check.sh does
cd /verif/harness && RUSTUP_TOOLCHAIN=nightly-2023-12-06 CARGO_NET_OFFLINE=true cargo build --release --offline --target-dir /verif/target 2>&1 | grep -E "^(error|warning: unused)" -A8 | head -60
