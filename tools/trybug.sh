#!/bin/bash
# trybug.sh ID [PROPS...]: confirms seeded/ID in a scratch copy (builds, stable tests pass, demo 0 -> nonzero), then runs checks on it
ID=$1; shift
D=/verif/seeded/$ID
WT=/tmp/wt-$ID
rm -rf "$WT"; cp -a /repo "$WT"
for f in build.sh test.sh results.py unity_lines.py; do sed "s#/repo#$WT#g; s#/opt/vp/build.sh#$WT/.vp-build.sh#g; s#/opt/vp/unity_lines.py#$WT/.vp-unity_lines.py#; s#/opt/vp/results.py#$WT/.vp-results.py#" /opt/vp/$f > $WT/.vp-$f; done
cd $WT
cp -r $D /tmp/demo-$ID; rm -f /tmp/demo-$ID/patch.diff /tmp/demo-$ID/meta.json
if [ -z "$SKIPDEMO" ]; then
bash .vp-build.sh >/dev/null 2>&1 || echo "$ID: CLEAN BUILD FAILED"
bash /tmp/demo-$ID/demo.sh > /tmp/demo-$ID/out0 2>&1; c0=$?
git apply $D/patch.diff || { echo "$ID: PATCH DOES NOT APPLY"; exit 1; }
bash .vp-test.sh $WT/.vp-out.json >/tmp/demo-$ID/testout 2>&1
bash /tmp/demo-$ID/demo.sh > /tmp/demo-$ID/out1 2>&1; c1=$?
python3 - $WT $ID $c0 $c1 <<'P'
import json,sys
wt,i,c0,c1=sys.argv[1:]
b=json.load(open('/opt/vp/BASELINE.json')); o=json.load(open(wt+'/.vp-out.json'))
base=b.get('passed') or b.get('stable') or b
missing=[t for t in base if t not in o['passed']]
print('%s: demo clean=%s bug=%s; stable tests %s'%(i,c0,c1,'PASS' if not missing else 'FAIL '+str(missing[:3])), '' if c0=='0' and c1!='0' and not missing else '<<<< REJECT')
P
else git apply $D/patch.diff; fi
for p in "$@"; do
  VERIF_REPO=$WT timeout 900 python3 /verif/check.py $p > /tmp/demo-$ID/$p.out 2>&1; rc=$?
  echo "   $ID $p rc=$rc $(grep -B1 '^VIOLATION' /tmp/demo-$ID/$p.out | head -1 | cut -c1-220) $(grep -oE '^\[ *[0-9.]+s\]' /tmp/demo-$ID/$p.out | tail -1)"
done
rm -rf "$WT" /tmp/demo-$ID
