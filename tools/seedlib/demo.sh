#!/bin/bash
# builds the demonstration against the tree in the current directory and runs it
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
work=$(mktemp -d /tmp/ajdemo.XXXXXX)
trap 'rm -rf "$work"' EXIT
mkdir -p "$work/demo/src"
cp "$here"/src/*.rs "$work/demo/src/"
sed "s#@REPO@#$repo#g" "$here/Cargo.toml.in" > "$work/demo/Cargo.toml"
[ -f "$repo/Cargo.lock" ] && cp "$repo/Cargo.lock" "$work/demo/Cargo.lock"
export CARGO_TARGET_DIR=${DEMO_TARGET:-$work/target} CARGO_NET_OFFLINE=true
unset RUSTFLAGS RUSTC_WRAPPER
cd "$work/demo" || exit 2
cargo build --offline > "$work/build.log" 2>&1 || { tail -30 "$work/build.log"; echo "could not compile"; exit 2; }
timeout 100 "$CARGO_TARGET_DIR/debug/demo"
rc=$?
echo "exit $rc"
exit $rc
