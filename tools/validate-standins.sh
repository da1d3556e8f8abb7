#!/bin/bash
# Runs the repository's own tests (unit and integration, real tokio, real sockets on the loopback device) with the
# stand-ins for the crates that cannot be fetched here: this is how the stand-ins are validated. No registered check
# uses it; it needs about a minute and a scratch directory that it removes.
V="$(cd "$(dirname "$(readlink -f "$0")")/.." && pwd)"
"$V/vendor.sh" || exit 2
D=$(mktemp -d) && trap 'rm -rf "$D"' EXIT
(cd /repo && tar cf - --exclude .git --exclude target --exclude Cargo.lock .) | tar xf - -C "$D" && cp -a "$V/shims" "$D/" && mkdir -p "$D/target/vendor" && cp -a "$V/target/vendor/rustls-0.23.46" "$D/target/vendor/" || exit 2
cd "$D" && python3 - <<'P' || exit 2
s = open('Cargo.toml').read()
s = s[:s.index('[patch.crates-io]')].replace('    "proxy",\n    "tag-', '    "tag-') + '[patch.crates-io]\n' + ''.join(f'{c} = {{ path = "shims/{c}" }}\n' for c in ['bounded-static', 'imap-types', 'imap-codec', 'rustls', 'tokio-rustls', 'tracing-subscriber'])
open('Cargo.toml', 'w').write(s)
P
export CARGO_NET_OFFLINE=true
cargo test --offline --workspace 2>&1 | grep -E '^(test |running|error|failures)|panicked|Running'
exit "${PIPESTATUS[0]}"
