#!/bin/bash
# Builds the "common" member of the repository in the current directory in a scratch workspace (the way
# /opt/vp/build.sh mirrors it) with demo.rs as an integration test, and runs it.
HERE=$(cd "$(dirname "$0")" && pwd)
REPO=$PWD
export HOME=/root PATH=/root/.cargo/bin:/usr/local/cargo/bin:$PATH
export RUSTUP_TOOLCHAIN=nightly CARGO_NET_OFFLINE=true CARGO_INCREMENTAL=0 CARGO_PROFILE_DEV_DEBUG=line-tables-only
export CARGO_TERM_COLOR=never RUSTC_WRAPPER= CARGO_TARGET_DIR=/opt/vp/target
W=$(mktemp -d)
trap 'rm -rf "$W"' EXIT
grep -vE '^[[:space:]]*"src/(events-gen|metadata|platform|query|storage|ingester|cmd)",?[[:space:]]*$' "$REPO/Cargo.toml" > "$W/Cargo.toml"
cp /opt/vp/common.Cargo.lock "$W/Cargo.lock"
/opt/vp/bin/trim copy "$REPO/src/common" "$W/src/common" arrow2 || exit 3
mkdir -p "$W/src/common/tests"
cp "$HERE/demo.rs" "$W/src/common/tests/demo.rs"
cd "$W" && cargo test --offline -p common --test demo
