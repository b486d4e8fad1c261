#!/bin/bash
# Run in the repository's root. Exit 0: the property holds for the case in main.rs; 1: it is broken.
D=$(cd "$(dirname "$0")" && pwd)
export PATH=/root/.cargo/bin:$PATH RUSTUP_TOOLCHAIN=1.77.2-x86_64-unknown-linux-gnu CARGO_NET_OFFLINE=true
unset RUSTFLAGS RUSTC_WRAPPER CARGO_TARGET_DIR
T=$(mktemp -d /tmp/demo.XXXXXXXX) || exit 3
trap 'rm -rf -- "$T"' EXIT
# a view of the library without the parts that need the missing peginator crate
python3 "$D/layout.py" "$PWD" "$T/scope" || exit 3
mkdir -p "$T/demo/src" && cp "$D/Cargo.toml" "$D/Cargo.lock" "$T/demo/" && cp "$D"/*.rs "$T/demo/src/" || exit 3
cd "$T/demo" || exit 3
cargo build --offline --locked --target-dir "${DEMO_TARGET:-$T/target}" >"$T/log" 2>&1 || { tail -30 "$T/log"; exit 3; }
timeout 120 "${DEMO_TARGET:-$T/target}/debug/demo"
