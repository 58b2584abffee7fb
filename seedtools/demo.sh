#!/bin/bash
# cwd: the crate under test. Exit 0 iff the demonstration holds.
set -u
repo=$(pwd)
here=$(cd "$(dirname "$0")" && pwd)
work=$(mktemp -d)
trap 'rm -rf "$work"' EXIT
mkdir -p "$work/src"
cp "$here"/*.rs "$work/src/"
cat > "$work/Cargo.toml" <<T
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[workspace]
[dependencies]
zune-jpeg = { path = "$repo" @FEAT@}
log = "0.4"
[profile.dev]
opt-level = 1
T
[ -f "$repo/Cargo.lock" ] && cp "$repo/Cargo.lock" "$work/Cargo.lock"
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu CARGO_NET_OFFLINE=true RUSTC_WRAPPER= CARGO_TARGET_DIR="$work/target"
cd "$work"
cargo build --offline -q > "$work/build.log" 2>&1 || { cat "$work/build.log"; rm -f "$work/Cargo.lock"; cargo build --offline -q || exit 3; }
timeout 120 "$work/target/debug/demo" "$work" > "$work/out" 2> "$work/err"
rc=$?
cat "$work/out"; tail -5 "$work/err" >&2
@POST@
exit $rc
