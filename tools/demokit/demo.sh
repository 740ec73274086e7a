#!/bin/bash
# Builds a scripted client against the program in the current directory and runs one scenario.
D=$(cd "$(dirname "$0")" && pwd); R=$PWD
W=$(mktemp -d); trap 'rm -rf "$W"' EXIT
cp -r "$D/src" "$D/Cargo.lock" "$W/" && sed "s|@REPO@|$R|g" "$D/Cargo.toml.in" >"$W/Cargo.toml" || exit 3
export PATH=/root/.cargo/bin:$PATH RUSTUP_TOOLCHAIN=1.87.0 CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never RUSTC_WRAPPER= CARGO_TARGET_DIR="$W/target"
cd "$W" || exit 3
cargo build --offline --quiet >"$W/log" 2>&1 || { grep -A8 '^error' "$W/log" >&2; exit 3; }
"$W/target/debug/demo" 2>&1 >/dev/null | grep '^DEMO'
exit "${PIPESTATUS[0]}"
