#!/bin/bash
# verify_seed.sh ID...: confirms that seeded/ID builds, passes the stable tests, and that its demo tells the trees apart. Leaves /repo as it was.
cd /repo || exit 1
[ -z "$(git status --porcelain)" ] || { echo "/repo not clean"; exit 1; }
rt() { bash /opt/vp/build.sh > /tmp/vs.log 2>&1 || { tail -5 /tmp/vs.log; return 1; }
 bash /opt/vp/test.sh /tmp/vs.json > /tmp/vs.log 2>&1
 python3 -c "
import json
b=json.load(open('/opt/vp/BASELINE.json')); o=json.load(open('/tmp/vs.json'))
g=lambda x: set(next(x[k] for k in('passed','pass','stable','tests') if k in x))
m=g(b)-g(o); print('tests', 'ok' if not m else sorted(m)); raise SystemExit(1 if m else 0)"; }
bash /opt/vp/build.sh > /tmp/vs.log 2>&1
for id in "$@"; do d=/verif/seeded/$id; t=$(mktemp -d); cp -r $d/. $t; rm -f $t/*.diff $t/meta.json
 timeout 300 bash $t/demo.sh > $t/o1 2>&1; a=$?
 git apply $d/patch.diff || { echo "$id: does not apply"; continue; }
 rt; b=$?
 timeout 300 bash $t/demo.sh > $t/o2 2>&1; c=$?
 git checkout -q -- .
 orig=$(git show HEAD --stat >/dev/null; python3 /verif/tools/orig_lines.py $d/patch.diff)
 echo "$id: demo clean=$a patched=$c tests=$b original-lines=$orig"
 [ $a = 0 ] || head -5 $t/o1; [ $c != 0 ] || echo "   demo does not see it"; rm -rf $t
done
bash /opt/vp/build.sh > /tmp/vs.log 2>&1
