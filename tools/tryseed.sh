#!/bin/bash
# tools/tryseed.sh seeded/<id> : confirm a planted bug in a scratch copy (private mount namespace): applies, builds, stable tests pass,
# demo passes before and fails after; then run the check of its property (quick) on it.   Output: one line of verdicts.
S=$(realpath "$1"); ID=$(basename "$S"); W=/tmp/seedw.$ID.$$
P=$(python3 -c "import json,sys;print(json.load(open('$S/meta.json'))['property'])")
mkdir -p $W/reports $W/demo
cp -a /repo $W/repo
cp -a "$S"/. $W/demo/; rm -f $W/demo/*.diff $W/demo/meta.json
unshare -Urm bash -c "
mount --bind $W/repo /repo && mount --bind $W/reports /opt/vp/reports || exit 9
cd /repo
bash $W/demo/demo.sh > $W/d0 2>&1; d0=\$?
git apply $S/patch.diff || { echo '$ID: patch does not apply'; exit 1; }
bash /opt/vp/build.sh > $W/b 2>&1; b=\$?
bash $W/demo/demo.sh > $W/d1 2>&1; d1=\$?
if [ '$2' != notest ]; then bash /opt/vp/test.sh $W/t.json > /dev/null 2>&1
t=\$(python3 -c \"
import json
b=json.load(open('/opt/vp/BASELINE.json')); r=json.load(open('$W/t.json'))
st=b.get('stable') or b.get('passed') or b
st=set(st if isinstance(st,list) else list(st))
print(len(st-set(r['passed'])), sorted(st-set(r['passed']))[:3])\"); fi
mkdir -p $W/v; cp -a /verif/symbf /verif/check.sh /verif/known-findings.json $W/v/; cd $W/v
bash ./check.sh $P > $W/c 2>&1; c=\$?
echo \"$ID ($P): demo before=\$d0 after=\$d1 build=\$b tests-lost=\$t check=\$c \$(grep -c '^VIOLATION' $W/c) violations, \$(grep -c ^INCON $W/c) inconclusive\"
grep -B1 '^VIOLATION' $W/c | grep -v '^VIOL\|^--' | head -3 | cut -c1-220
if [ \$d0 != 0 ] || [ \$d1 = 0 ]; then tail -3 $W/d0 $W/d1; fi
"
find "$W" -delete
