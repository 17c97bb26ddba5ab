#!/bin/bash
# runs the check of each planted bug's property against a scratch copy with the bug: seedcheck.sh [ID...]
cd "$(dirname "$0")/.."
[ $# = 0 ] && set -- $(ls seeded)
for s in "$@"; do
  T=$(mktemp -d /tmp/sc-XXXXXX)
  cp -a /repo $T/repo; git -C $T/repo apply "$PWD/seeded/$s/patch.diff" || echo "APPLY FAILED $s"
  P=$(python3 -c "import json;print(json.load(open('seeded/$s/meta.json'))['property'])")
  python3-vt pyvc/check.py --repo $T/repo --no-evidence --property $P > $T/log 2>&1; rc=$?
  echo "$s $P rc=$rc $(grep -c ^VIOLATION $T/log) $(grep ^VIOLATION $T/log | head -1 | sed 's/.*replay=[^ ]*//')"
  [ $rc = 1 ] || tail -5 $T/log
  rm -rf "$T"
done
