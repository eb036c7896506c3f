#!/bin/bash
# plant.sh ID...: confirm planted bugs of seeded/ (demo passes without, fails with the patch; builds; stable tests pass) and run the check of its property
cd /repo || exit 1
[ -z "$(git status --porcelain)" ] || { echo "/repo is not clean"; exit 1; }
for id in "$@"; do
  d=/verif/seeded/$id
  prop=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
  bash $d/demo.sh >/tmp/plant.$id.clean 2>&1; a=$?
  git apply $d/patch.diff || { echo "$id: patch does not apply"; continue; }
  bash /opt/vp/build.sh >/tmp/plant.$id.build 2>&1; b=$?
  bash /opt/vp/test.sh /tmp/plant.$id.json >/dev/null 2>&1
  t=$(python3 -c "
import json;g=json.load(open('/tmp/plant.$id.json'));b=json.load(open('/opt/vp/BASELINE.json'))
s=b.get('stable') or b.get('passed') or b.get('tests') or b
s=set(x if isinstance(x,str) else x.get('id') for x in (s if isinstance(s,list) else list(s)))
print('missing %d' % len(s-set(g['passed'])), 'failed %d' % len(g['failed']))")
  bash $d/demo.sh >/tmp/plant.$id.bug 2>&1; c=$?
  (cd /verif && timeout 900 python3 check.py $prop >/tmp/plant.$id.check 2>&1); k=$?
  git checkout -q -- .
  bash /opt/vp/build.sh >/dev/null 2>&1
  echo "$id $prop: demo clean=$a build=$b tests: $t demo bug=$c check=$k $(grep -c '^violated' /tmp/plant.$id.check)"
done
