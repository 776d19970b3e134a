#!/bin/bash
# seed.sh ID [CHECK-ID...]: validates the planted bug seeded/ID in /repo (applied, built,
# tested, demonstrated, checked, undone) and says which checks see it.
# NOTEST=1 skips the test suite.
cd /repo || exit 9
D=/verif/seeded/$1; ID=$1; shift
CH="$@"; [ -z "$CH" ] && CH=$(python3 -c "import json;print(json.load(open('$D/meta.json'))['property'])")
git diff --quiet || { echo "dirty /repo"; exit 9; }
undo() { git -C /repo checkout -q -- .; bash /opt/vp/build.sh >/tmp/seed-build.log 2>&1; }
if [ -z "$NODEMO0" ]; then bash /opt/vp/build.sh >/tmp/seed-build.log 2>&1; bash $D/demo.sh >/tmp/seed-demo0.log 2>&1; echo "$ID demo unpatched: $?"; fi
git apply $D/patch.diff || { echo "$ID patch does not apply"; exit 9; }
trap undo EXIT
bash /opt/vp/build.sh >/tmp/seed-build.log 2>&1 || { echo "$ID build fails"; tail -5 /tmp/seed-build.log; exit 9; }
bash $D/demo.sh >/tmp/seed-demo1.log 2>&1; echo "$ID demo patched: $?"
if [ -z "$NOTEST" ]; then bash /opt/vp/test.sh /tmp/seed-test.json >/tmp/seed-test.log 2>&1; echo "$ID tests: $(tail -1 /tmp/seed-test.log)"; fi
for c in $CH; do
  s=$(date +%s); (cd /verif && VERIF_SEED=${VERIF_SEED:-1} timeout 900 $(python3 -c "
import json
print([x for x in json.load(open('/verif/MANIFEST.json'))['checks'] if x.get('property',x.get('id'))=='$c'][0].get('quick_cmd') or '')")) >/tmp/seed-check.log 2>&1
  echo "$ID check $c: rc $? $(( $(date +%s)-s ))s $(grep -m1 VIOLATION /tmp/seed-check.log)"
done
