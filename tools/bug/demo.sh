#!/bin/bash
# exit 0: the behaviour is as it should be; nonzero: it is not
here=$(cd "$(dirname "$0")" && pwd)
work=$(mktemp -d /tmp/demo.XXXXXX) || exit 2
trap 'rm -rf "$work"' EXIT
cp -r "$here/." "$work/demo"
cp /repo/Cargo.lock "$work/demo/Cargo.lock"
cd "$work/demo" || exit 2
export RUSTUP_TOOLCHAIN=nightly-2023-12-06 CARGO_NET_OFFLINE=true
unset RUSTFLAGS CARGO_TARGET_DIR
cargo build --offline --target-dir "$work/target" >"$work/log" 2>&1 || { tail -20 "$work/log"; exit 2; }
timeout 120 "$work/target/debug/demo" "$work"
