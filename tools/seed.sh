#!/bin/bash
# seed.sh <id> [property ...]: confirm a planted bug in a scratch copy, and run checks on it.
id="$1"; shift
s=/verif/seeded/$id
w=/tmp/seedwork.$id
rm -rf "$w"; cp -a /repo "$w"
. /opt/vp/env.sh
cd "$w" || exit 1
ok=1
(bash $s/demo.sh >/tmp/seed.$id.clean 2>&1) || { echo "demo fails on the clean tree"; tail -20 /tmp/seed.$id.clean; ok=0; }
git apply $s/patch.diff || { echo "does not apply"; exit 1; }
go build ./... && go vet . || { echo "does not build"; ok=0; }
go test ./... -count=1 >/tmp/seed.$id.test 2>&1 || { echo "tests fail"; tail -20 /tmp/seed.$id.test; ok=0; }
(bash $s/demo.sh >/tmp/seed.$id.bug 2>&1) && { echo "demo passes with the bug"; ok=0; }
grep -E "^\s+.*_test.go|FAIL|panic:|DATA RACE" /tmp/seed.$id.bug | head -5
[ $ok = 1 ] && echo "seed $id: valid"
unset GOROOT GOFLAGS
ps="$*"
[ -z "$ps" ] && ps=$(python3 -c "import json;print(json.load(open('$s/meta.json'))['property'])")
mkdir -p /tmp/ev
for p in $ps; do
  [ "$p" = none ] && continue
  /verif/bin/wsvet -check $p -repo "$w" -verif /tmp/ev >/tmp/seed.$id.$p 2>&1
  echo "check $p: rc=$?"; head -4 /tmp/seed.$id.$p | cut -c1-300
done
rm -rf "$w"
