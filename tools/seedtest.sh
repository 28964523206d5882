#!/bin/bash
# seedtest.sh ID...: in a scratch copy: patch applies, builds, stable tests pass, demo distinguishes
for id in "$@"; do
S=/verif/seeded/$id; W=$(mktemp -d /tmp/seedXXXXXX)
cp -a /repo $W/repo
sed "s#/repo#$W/repo#g" /opt/vp/build.sh > $W/build.sh
sed "s#/repo#$W/repo#g; s#/opt/vp/build.sh#$W/build.sh#" /opt/vp/test.sh > $W/test.sh
rm -rf $W/repo/_build
cd $W/repo; r="ok"
cp -r $S $W/s
bash $W/s/demo.sh > $W/d0 2>&1 || r="demo fails on the unchanged tree: $(tail -2 $W/d0)"
git apply $S/patch.diff || r="patch does not apply"
bash $W/test.sh $W/o.json > $W/log 2>&1
python3 - $W/o.json <<'P' || r="$r; stable tests fail"
import json,sys
b=json.load(open('/opt/vp/BASELINE.json')); o=json.load(open(sys.argv[1]))
st=b.get('stable') or b.get('passed') or b
miss=[t for t in st if t not in set(o['passed'])]
if miss: print('  missing',miss[:5])
sys.exit(1 if miss else 0)
P
timeout 300 bash $W/s/demo.sh > $W/d1 2>&1 && r="$r; demo passes with the patch"
echo "$id: $r | $(tail -1 $W/d1 | cut -c1-150)"
cd /; rm -rf $W
done
