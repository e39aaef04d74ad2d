#!/bin/bash
# seed.sh ID [CHECK...]: applies seeded/ID to /repo, builds, runs stable tests, demo and the check(s), undoes it.
ID=$1; shift
D=/verif/seeded/$ID
P=$(python3 -c "import json;print(json.load(open('$D/meta.json'))['property'])")
cd /repo && [ -z "$(git status --porcelain)" ] || { echo "repo dirty"; exit 3; }
git apply --check $D/patch.diff || exit 3
git apply $D/patch.diff
trap 'git -C /repo checkout -q -- .' EXIT
bash /opt/vp/build.sh > /tmp/seed_build.log 2>&1 || { echo "$ID BUILD FAILED"; tail -5 /tmp/seed_build.log; exit 3; }
bash /opt/vp/test.sh /tmp/seed_t.json > /dev/null 2>&1
python3 -c "
import json
b=json.load(open('/opt/vp/BASELINE.json'));t=json.load(open('/tmp/seed_t.json'))
m=set(b['stable'])-set(t['passed'])
print('$ID stable tests', 'OK' if not m else 'BROKEN %s'%m)"
bash $D/demo.sh > /tmp/seed_demo.log 2>&1 ; echo "$ID demo with patch rc=$? (want nonzero)"; tail -3 /tmp/seed_demo.log
for c in $P "$@"; do
  cd /verif; timeout 900 python3 check.py $c --tier quick > /tmp/seed_$c.log 2>&1; echo "$ID check $c rc=$?"; grep -E "VIOLATION|first fail|BUILD" /tmp/seed_$c.log | head -3
done
