#!/bin/bash
# Unpacks the real tokio and rustls from cargo's offline cache into target/vendor, so that the stand-ins
# (which carry the same crate names) can depend on them by path.
cd "$(dirname "$(readlink -f "$0")")" || exit 2
mkdir -p target/vendor
for c in tokio-1.54.1 rustls-0.23.46; do
  [ -f target/vendor/$c/.unpacked ] && continue
  f=$(ls "${CARGO_HOME:-$HOME/.cargo}"/registry/cache/*/$c.crate 2>/dev/null | head -1)
  [ -n "$f" ] || { echo "$c is not in the cargo cache" >&2; exit 2; }
  tar xzf "$f" -C target/vendor && touch target/vendor/$c/.unpacked || exit 2
done
