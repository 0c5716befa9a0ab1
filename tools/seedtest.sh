#!/bin/bash
# tools/seedtest.sh ID [nocheck] : tries one planted bug (seeded/ID) in a private copy of /repo
# (bind-mounted over /repo in a user+mount namespace; the real /repo is never touched).
# A = demo passes on the unchanged tree; B = builds; C = stable tests; D = demo fails with the patch; E = the property's quick check.
id=$1; s=/verif/seeded/$id; w=/tmp/w/$id.$$
mkdir -p $w
cp -a /repo $w/repo; cp -a /opt/vp $w/vp; mkdir $w/demo; cp -a $s/. $w/demo/; rm -f $w/demo/patch.diff $w/demo/meta.json
mkdir $w/vbuild $w/vev
prop=$(python3 -c "import json;print(json.load(open('$s/meta.json'))['property'])")
unshare -Urm bash -c "
mount --bind $w/repo /repo; mount --bind $w/vp /opt/vp; mount --bind $w/vbuild /verif/build; mount --bind $w/vev /verif/evidence
cd /repo
bash /opt/vp/build.sh >$w/b0.log 2>&1 || echo 'BUILD0 FAIL'
timeout 300 bash $w/demo/demo.sh >$w/d0.log 2>&1; echo A demo-unchanged \$? want 0
git apply $s/patch.diff || { echo APPLY FAIL; exit 1; }
bash /opt/vp/build.sh >$w/b1.log 2>&1 || { echo BUILD FAIL; tail -5 $w/b1.log; }
echo B built
if [ \"$2\" != notest ]; then
bash /opt/vp/test.sh $w/o.json >$w/t1.log 2>&1
python3 -c \"
import json;b=json.load(open('/opt/vp/BASELINE.json'));o=json.load(open('$w/o.json'))
st=b.get('stable') or b.get('passed')
m=[t for t in st if t not in o['passed']]
print('C tests missing:',m)\"
fi
timeout 300 bash $w/demo/demo.sh >$w/d1.log 2>&1; echo D demo-patched \$? want nonzero; tail -2 $w/d1.log
if [ \"$2\" != nocheck ]; then
cd /verif
export VERIF_SEED=1 VERIF_TIER=quick
t=\$(date +%s)
for p in \${PROPS:-$prop}; do timeout 900 bin/check \$p --tier quick >$w/c.log 2>&1; echo E check \$p rc=\$? in \$((\$(date +%s)-t)) s; grep -E 'VIOLATION|Error' $w/c.log | head -3; done
fi
"
cp $w/c.log /tmp/w/$id.check.log 2>/dev/null
rm -rf "$w"
