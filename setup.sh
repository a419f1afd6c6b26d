#!/bin/bash
# build everything once, so that the checks only rebuild what changed
cd "$(dirname "$0")" || exit 1
export RUSTUP_TOOLCHAIN=nightly-2023-12-06 CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never
unset RUSTFLAGS CARGO_TARGET_DIR CARGO_ENCODED_RUSTFLAGS
mkdir -p evidence target/asan
here=$PWD
. "$here/tools/fresh.sh"
cd harness || exit 1
stale "$here/target" && cargo build --release --offline --target-dir ../target || exit 1
built "$here/target"
(cd distrod && stale "$here/target/distro" && cargo build --release --offline --target-dir ../../target/distro && built "$here/target/distro") || echo "the distribution crate does not build: left out of S06"
stale "$here/target/asan" && RUSTFLAGS="-Zsanitizer=address --cfg sanitize_address_build" cargo build --release --offline -p tgmon --target x86_64-unknown-linux-gnu --target-dir ../target/asan && built "$here/target/asan"
