#!/bin/bash
# Builds main.rs against the program in the current directory and runs it:
# it panics (and this script exits nonzero) where the property is broken.
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
export HOME=/root PATH=/root/.cargo/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin
export RUSTUP_TOOLCHAIN=1.70.0 CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never RUSTC_WRAPPER=
t=$(mktemp -d /tmp/demo.XXXXXX) || exit 3
trap 'rm -rf "$t"' EXIT
cp -r "$here/crate" "$t/crate" && cp "$here/main.rs" "$t/crate/src/main.rs" || exit 3
cd "$t/crate" || exit 3
sed "s#@REPO@#$repo#" Cargo.toml.in >Cargo.toml
export CARGO_TARGET_DIR=$t/target
cargo build --offline >"$t/log" 2>&1 || { tail -40 "$t/log"; echo "demonstration does not build"; exit 4; }
"$t/target/debug/demo"
