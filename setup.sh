#!/bin/bash
# Checks that every harness crate builds offline from the committed files.
cd "$(dirname "$(readlink -f "$0")")" || exit 2
./vendor.sh || exit 2
export CARGO_NET_OFFLINE=true
for c in mc-core mc-ids mc-config mc-io mc-proxy; do
  [ -f $c/Cargo.toml ] || continue
  cargo build -q --offline --manifest-path $c/Cargo.toml --target-dir target || exit 1
done
