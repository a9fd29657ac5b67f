#!/bin/bash
# tools/seed.sh ID [CHECK...]: verifies a planted bug against /repo (which is restored) and runs checks against it.
id=$1; shift; d=/verif/seeded/$id; export PATH=/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin
[ -z "$(git -C /repo status --porcelain)" ] || { echo "/repo is not clean"; exit 2; }
trap 'git -C /repo checkout -q -- .; bash /opt/vp/build.sh >/dev/null 2>&1' EXIT
if [ "$NODEMO" != 1 ]; then
bash /opt/vp/build.sh >/dev/null 2>&1
( cd /repo; timeout 300 bash $d/demo.sh > /tmp/seed.$id.clean 2>&1 ); a=$?
fi
git -C /repo apply $d/patch.diff || exit 2
if [ "$NODEMO" != 1 ]; then
bash /opt/vp/test.sh /tmp/seed.$id.json > /tmp/seed.$id.test 2>&1
t=$(python3 -c "
import json; b=json.load(open('/opt/vp/BASELINE.json'))['stable']; p=json.load(open('/tmp/seed.$id.json'))['passed']; print(len(set(b)-set(p)))")
( cd /repo; timeout 300 bash $d/demo.sh > /tmp/seed.$id.bug 2>&1 ); b=$?
echo "$id: demo clean=$a bug=$b, stable tests failing: $t, $( [ $a = 0 ] && [ $b != 0 ] && [ $t = 0 ] && echo COUNTS || { echo INVALID; tail -n 3 /tmp/seed.$id.clean /tmp/seed.$id.bug; } )"
fi
[ $# = 0 ] && set -- $(python3 -c "import json; print(json.load(open('$d/meta.json'))['property'])")
for c in "$@"; do ( cd /verif; python3 check.py $c quick > /tmp/seed.$id.$c 2>&1; echo "  $c: exit $? $(grep -m1 -A1 VIOLATION /tmp/seed.$id.$c | tail -1 | cut -c1-200)" ); done
