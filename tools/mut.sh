#!/bin/bash
# usage: mut.sh 'python-expr on s' file prop...   applies a textual mutation to /repo/<file>, runs checks, restores
f=/repo/$2; [ -z "$(git -C /repo status --porcelain)" ] || { echo dirty; exit 2; }
python3 - "$f" "$1" <<'P'
import sys
p,e=sys.argv[1:3]; s=open(p).read(); o=s
exec(e)
assert s!=o,'mutation had no effect'
open(p,'w').write(s)
P
[ $? = 0 ] || exit 2
shift 2
for p in "$@"; do ./check.sh $p > /tmp/mut.out 2>&1; echo "$p exit=$? $(grep -a VIOLATION /tmp/mut.out | head -1) :: $(grep -av VIOLATION /tmp/mut.out | grep -aE 'error|differ|twice|equal|:' | tail -2 | head -c 300 | tr '\n' ' ')"; done
git -C /repo checkout -- .
