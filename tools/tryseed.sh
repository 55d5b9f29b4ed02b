#!/bin/bash
# tryseed.sh ID [check...]: confirms a planted bug (clean demo, build, tests, demo) in /repo and runs the named checks; undoes it
set -u
id=$1; shift
d=/verif/seeded/$id
cd /repo
git diff --quiet || { echo "dirty /repo"; exit 9; }
bash $d/demo.sh >/tmp/ts.clean 2>&1; c=$?
git apply $d/patch.diff || { echo "$id: does not apply"; exit 9; }
trap 'git -C /repo checkout -q -- .' EXIT
bash /opt/vp/build.sh >/tmp/ts.build 2>&1; b=$?
bash /opt/vp/test.sh /tmp/ts.json >/tmp/ts.test 2>&1
t=$(tail -1 /tmp/ts.test)
bash $d/demo.sh >/tmp/ts.bug 2>&1; p=$?
echo "$id: clean=$c build=$b tests=[$t] patched=$p"
[ $c = 0 ] && [ $p != 0 ] || tail -5 /tmp/ts.clean /tmp/ts.bug
for k in "$@"; do
  s=$(date +%s)
  (cd /verif && VERIF_TIER=quick python3 gv/driver.py $k) >/tmp/ts.$k.log 2>&1; r=$?
  echo "   $k: exit $r $(($(date +%s)-s))s $(grep -m1 VIOLATION /tmp/ts.$k.log)"
done
