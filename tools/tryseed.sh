#!/bin/bash
# Applies a planted change to /repo, runs the checks of its property (or those given), undoes it.
# usage: tryseed.sh <id> [property...]
id=$1; shift; d=/verif/seeded/$id
props=${*:-$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")}
[ -z "$(git -C /repo status --porcelain --untracked-files=no)" ] || { echo "/repo is dirty"; exit 2; }
git -C /repo apply "$d/patch.diff" || exit 2
trap 'git -C /repo checkout -q -- .' EXIT
for p in $props; do
  s=$(date +%s); /verif/check.sh "$p" quick >/tmp/try.$id.$p 2>&1; r=$?
  echo "$id $p rc=$r $(( $(date +%s)-s ))s $(grep -m1 '^VIOLATION' /tmp/try.$id.$p)"
done
