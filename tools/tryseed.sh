#!/bin/bash
# tryseed.sh ID: confirms a planted bug in a scratch copy that is bind-mounted over /repo in a private mount namespace:
# the demonstration passes without it and fails with it, it builds, and the stable tests pass.
ID=$1; V=/verif; S=$V/seeded/$ID
W=$(mktemp -d /tmp/tryseed.XXXXXX)
cp -a /repo $W/repo; cp -r $S $W/demo; rm -f $W/demo/patch.diff $W/demo/meta.json
cat > $W/run.sh <<EOF
mount --bind $W/repo /repo || exit 9
cd /repo
bash /opt/vp/build.sh > $W/build0.log 2>&1 || echo BUILD0-FAILED
( timeout 300 bash $W/demo/demo.sh > $W/demo0.log 2>&1 ); echo "demo unchanged: \$?"
git apply $S/patch.diff || { echo APPLY-FAILED; exit 1; }
bash /opt/vp/build.sh > $W/build1.log 2>&1 || echo BUILD1-FAILED
( timeout 300 bash $W/demo/demo.sh > $W/demo1.log 2>&1 ); echo "demo patched: \$?"
tail -5 $W/demo1.log
if [ "$2" != notest ]; then
bash /opt/vp/test.sh $W/out.json > $W/test.log 2>&1
python3 - <<P
import json
o=json.load(open("$W/out.json")); b=json.load(open("/opt/vp/BASELINE.json"))
print({k:(len(v) if hasattr(v,'__len__') else v) for k,v in o.items()})
st=b.get('stable') or b.get('passed') or b
pas=set(o.get('passed',[]))
miss=[x for x in st if x not in pas]
print('stable tests that no longer pass:',len(miss),miss[:5])
P
fi
EOF
unshare -Urm bash $W/run.sh
rm -rf "$W"
