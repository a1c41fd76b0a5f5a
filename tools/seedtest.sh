#!/bin/bash
# tools/seedtest.sh ID [quick|none]: validates one planted bug in a scratch copy of /repo:
# the patch applies, builds, passes the tests, the demo passes without and fails with it,
# and says whether the check of its property reports a violation.
set -u
ID=$1; MODE=${2:-quick}
S=/verif/seeded/$ID; W=/tmp/seedtest.$ID; rm -rf "$W"; mkdir -p "$W"
cp -a /repo "$W/repo"; cp -a "$S" "$W/demo"; rm -f "$W"/demo/*.diff "$W/demo/meta.json"
. /opt/vp/env.sh
cd "$W/repo" || exit 2
( cd client && go generate >/dev/null 2>&1; go build ./... ) || { echo "$ID: unchanged tree does not build"; exit 2; }
timeout 300 bash "$W/demo/demo.sh" >"$W/demo.clean" 2>&1; rc=$?
[ $rc = 0 ] || { echo "$ID: DEMO FAILS ON UNCHANGED TREE ($rc)"; tail -20 "$W/demo.clean"; }
git apply "$S/patch.diff" || { echo "$ID: PATCH DOES NOT APPLY"; exit 2; }
( cd client && go build ./... ) || { echo "$ID: DOES NOT BUILD"; exit 2; }
( cd client && go test -vet=off -count=1 ./... >"$W/test.log" 2>&1 ) || { echo "$ID: TESTS FAIL"; grep -a FAIL "$W/test.log" | head; }
timeout 300 bash "$W/demo/demo.sh" >"$W/demo.bug" 2>&1; rc=$?
[ $rc != 0 ] || echo "$ID: DEMO PASSES WITH THE BUG"
P=$(python3 -c "import json;print(json.load(open('$S/meta.json'))['property'])")
if [ "$MODE" != none ]; then
  SIM_REPO="$W/repo" timeout 900 /verif/bin/check "$P" "$MODE" >"$W/check.log" 2>&1; rc=$?
  if [ $rc = 1 ] && grep -q "^VIOLATION property=$P " "$W/check.log"; then
    echo "$ID: CAUGHT by $P: $(grep -a '^VIOLATION' "$W/check.log" | cut -d' ' -f1-2 | uniq -c | tr -s ' ') $(grep -ao 'class [a-z-]*\|\[[a-z-]*\]' "$W/check.log" | sort | uniq -c | tr '\n' ' ' | tr -s ' ')"
  else echo "$ID: MISSED by $P (exit $rc)"; tail -2 "$W/check.log"; fi
fi
rm -rf "$W"
