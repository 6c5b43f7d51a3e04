#!/bin/bash
# tools/seed.sh <id> [nocheck]: builds a scratch copy of /repo with the planted bug, runs the
# stable tests and the demonstration on both trees and, unless nocheck is given, the check.
set -u
id=$1; d=/verif/seeded/$id; w=/tmp/seedw_$id
rm -rf "/tmp/seedw_$id"; cp -a /repo "$w"
( cd /repo && bash "$d/demo.sh" >/tmp/seed_$id.clean 2>&1 ); c=$?
( cd "$w" && git apply "$d/patch.diff" ) || { echo "$id: patch does not apply"; exit 2; }
( cd "$w" && go build ./... && go vet ./... >/dev/null 2>&1; go test ./... -vet=off -count=1 2>&1 | grep -c "^--- FAIL" ) >/tmp/seed_$id.t 2>&1
( cd "$w" && bash "$d/demo.sh" >/tmp/seed_$id.bug 2>&1 ); b=$?
echo "$id: demo clean=$c bug=$b testfails=$(tail -1 /tmp/seed_$id.t)"
if [ "${2:-}" != nocheck ]; then
  p=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
  VERIF_REPO=$w /verif/bin/engine check $p quick >/tmp/seed_$id.out 2>&1; r=$?
  echo "$id: check $p exit=$r $(grep -m1 ^VIOLATION /tmp/seed_$id.out) $(tail -1 /tmp/seed_$id.out)"
fi
rm -rf "/tmp/seedw_$id"
