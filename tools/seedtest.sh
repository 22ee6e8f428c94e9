#!/bin/bash
# seedtest.sh <id>... : in scratch copies of /repo: demo on unchanged tree, patch, build, tests, demo, check
for id in "$@"; do
d=/verif/seeded/$id
t=$(mktemp -d /tmp/seed_XXXX)
cp -a /repo $t/repo
cp -a $d $t/demo
( cd $t/repo; bash $t/demo/demo.sh > $t/o1 2>&1 ); r1=$?
git -C $t/repo apply $d/patch.diff || { echo "$id: patch does not apply"; }
( cd $t/repo; bash $t/demo/demo.sh > $t/o2 2>&1 ); r2=$?
p=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
( cd /verif; VP_REPO=$t/repo bin/check $p > $t/o3 2>&1 ); r3=$?
echo "$id: demo clean $r1, patched $r2, check $p exit $r3"; grep VIOLATION $t/o3 | head -3; grep -B1 "input:" $t/o3 | cut -c1-300 | head -4
[ $r1 != 0 ] && tail -5 $t/o1
rm -r "$t"
done
