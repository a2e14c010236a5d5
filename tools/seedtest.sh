#!/bin/bash
# seedtest.sh ID [check]: applies a planted bug to /repo, builds, tests, runs the demo (and the check), reverts
id=$1; d=/verif/seeded/$id; cd /repo || exit 1
[ -z "$(git status --porcelain)" ] || { echo "repo dirty"; exit 1; }
prop=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
unset RUSTFLAGS
tmp=$(mktemp -d); cp -a $d/. $tmp/; rm -f $tmp/*.diff $tmp/meta.json
if [ "$2" != checkonly ]; then
bash $tmp/demo.sh > $tmp/clean.log 2>&1; echo "$id demo clean rc=$?"
fi
git apply $d/patch.diff || { echo "$id: does not apply"; exit 1; }
trap 'git -C /repo checkout -q -- .' EXIT
if [ "$2" != checkonly ]; then
bash /opt/vp/build.sh > $tmp/build.log 2>&1; echo "$id build rc=$?"
bash /opt/vp/test.sh $tmp/t.json > /dev/null 2>&1
python3 - <<P
import json
b=json.load(open('/opt/vp/BASELINE.json')); t=json.load(open('$tmp/t.json'))
names=b['stable']
miss=[x for x in names if x not in t['passed']]
print('$id tests:', 'all pass' if not miss else miss)
P
bash $tmp/demo.sh > $tmp/bug.log 2>&1; echo "$id demo bug rc=$?"; tail -2 $tmp/bug.log | cut -c1-200
fi
if [ -n "$2" ]; then cd /verif; VERIF_SEED=1 VERIF_TIER=quick python3 run.py $prop > $tmp/check.log 2>&1; echo "$id check $prop rc=$?"; grep "VIOLATION\|^#" $tmp/check.log | cut -c1-250; tail -1 $tmp/check.log; fi
rm -rf $tmp
