#!/bin/bash
# tools/try.sh SEED...: runs the check of the property of each planted bug against a scratch copy with the bug
mkdir -p /tmp/w
[ -d /tmp/w/repo ] || git clone -q /repo /tmp/w/repo
R=/tmp/w/repo
for s in "$@"; do
  d=/verif/seeded/$s
  p=${CHECK:-$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")}
  git -C $R checkout -q -- . && git -C $R pull -q && git -C $R apply $d/patch.diff || { echo "$s: does not apply"; continue; }
  VERIF_REPO=$R timeout 900 python3 /verif/check.py $p > /tmp/w/try-$s.log 2>&1; rc=$?
  echo "$s $p exit $rc $(grep -c '^VIOLATION' /tmp/w/try-$s.log) violations"
  git -C $R checkout -q -- .
done
