#!/bin/bash
# Builds the harness crate that decides property $1 from /repo's working tree and runs it.
# usage: check.sh <property> [quick|thorough]
set -u
cd "$(dirname "$(readlink -f "$0")")" || exit 2
prop=$1
tier=${2:-quick}
case $prop in
  C0*|F0*|S0*|X01|L01) crate=mc-core ;;
  H0*) crate=mc-ids ;;
  # the configuration by itself, then in the running program
  P07|P10) crate="mc-config mc-proxy" ;;
  T0*) crate=mc-io ;;
  P0*) crate=mc-proxy ;;
  *) echo "unknown property $prop" >&2; exit 2 ;;
esac
mkdir -p evidence
./vendor.sh || exit 2
export CARGO_NET_OFFLINE=true
log=$(mktemp)
for c in $crate; do
  if ! cargo build -q --offline --manifest-path "$c/Cargo.toml" --target-dir target >"$log" 2>&1; then
    cat "$log" >&2; rm -f "$log"; echo "build of $c failed" >&2; exit 2
  fi
done
rm -f "$log"
append=
ulimit -c 0
# Code under test that allocates without end is stopped before the machine is.
ulimit -v 24000000
for c in $crate; do
  "target/debug/$c" "$prop" --tier "$tier" $append
  code=$?
  case $code in
    0) ;;
    132|134|135|136|139)
      # The process died (abort, memory error) in a way it could not report itself.
      mkdir -p violations
      echo "property: $prop; $c ended with status $code while the code under test ran" > "violations/$prop-died.replay"
      echo "VIOLATION property=$prop replay=/verif/violations/$prop-died.replay"
      exit 1 ;;
    *) exit $code ;;
  esac
  append=--append
done
