#!/bin/bash
# catch.sh ID...: runs the check of each planted bug's property against a copy of /repo with the bug. RUNS /tmp/pw, /tmp/pb.
W=/tmp/pw; [ -d $W ] || git clone -q /repo $W
cd $W && git checkout -q -- . && git pull -q --ff-only
for id in "$@"; do p=$(python3 -c "import json;print(json.load(open('/verif/seeded/$id/meta.json'))['property'])")
 git -C $W checkout -q -- . ; git -C $W apply /verif/seeded/$id/patch.diff || continue
 t0=$(date +%s); REPO=$W SIM_BUILD=/tmp/pb timeout 900 python3 /verif/check.py ${P:-$p} quick --time ${T:-40} ${J:+--jobs $J} > /tmp/catch.$id 2>&1; c=$?
 echo "$id ${P:-$p}: exit $c $(grep -c '^VIOLATION property=' /tmp/catch.$id) $(($(date +%s)-t0))s $(grep '^VIOLATION' /tmp/catch.$id | head -1 | cut -c1-60)"
done
git -C $W checkout -q -- .
