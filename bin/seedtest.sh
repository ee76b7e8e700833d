#!/bin/bash
# seedtest.sh <seed id>...: confirms a planted bug (builds, stable tests pass, demo discriminates) and runs its property's quick check.
cd /verif || exit 2
for id in "$@"; do
  d=/verif/seeded/$id
  git -C /repo diff --quiet || { echo "/repo not clean"; exit 2; }
  p=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
  t=$(mktemp -d /tmp/seed.XXXX); cp -r $d/. $t/; rm -f $t/patch.diff $t/meta.json
  base=ok; if [ -z "$SKIPBASE" ]; then bash /opt/vp/build.sh >$t/b0.log 2>&1; (cd /repo && timeout 300 bash $t/demo.sh >$t/d0.log 2>&1) || base="DEMO-FAILS-ON-BASE"; fi
  git -C /repo apply $d/patch.diff || { echo "$id patch does not apply"; continue; }
  bash /opt/vp/test.sh $t/out.json >$t/b1.log 2>&1
  tests=$(python3 -c "
import json;b=json.load(open('/opt/vp/BASELINE.json'));o=json.load(open('$t/out.json'))
n=b.get('stable') or b.get('passed') or b.get('tests') or []
miss=[x for x in n if x not in o['passed']]
print('%d/%d'%(len(n)-len(miss),len(n)), 'missing:%s'%miss if miss else '')")
  (cd /repo && timeout 300 bash $t/demo.sh >$t/d1.log 2>&1); dr=$?
  [ $dr -ne 0 ] && dm=ok || dm="DEMO-PASSES-WITH-PATCH"
  timeout 900 python3 bin/check.py $p quick >$t/c.log 2>&1; rc=$?
  v=$(grep -m1 "VIOLATION property=$p" $t/c.log); git -C /repo checkout -q -- .
  echo "$id $p base=$base demo=$dm($dr) tests=$tests check rc=$rc ${v:0:80}"
  if [ "$base" != ok ]; then tail -5 $t/d0.log; fi
  rm -rf -- "$t"
done
