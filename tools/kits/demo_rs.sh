#!/bin/bash
# Run with the repository as working directory: exit 0 if the property's example holds.
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
w=$(mktemp -d) || exit 2
trap 'rm -rf "$w"' EXIT
cp -r "$here/kit/." "$w/" && cd "$w" || exit 2
sed "s#@REPO@#$repo#" Cargo.toml.in > Cargo.toml
sed -i "s#@REPO@#$repo#" src/main.rs
if [ -d rustls ]; then
  f=$(ls "${CARGO_HOME:-$HOME/.cargo}"/registry/cache/*/rustls-0.23.46.crate | head -1)
  mkdir vendor && tar xzf "$f" -C vendor || exit 2
fi
export CARGO_NET_OFFLINE=true CARGO_TARGET_DIR=$w/target RUSTUP_TOOLCHAIN=stable
cargo build -q --offline 2>"$w/log" || { cat "$w/log"; exit 2; }
timeout 120 target/debug/demo
