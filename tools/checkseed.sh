#!/bin/bash
# checkseed.sh ID...: runs the property's check on a scratch copy with the planted bug applied (private mount namespace)
V=/verif
one() {
ID=$1; S=$V/seeded/$ID; P=$(python3 -c "import json;print(json.load(open('$S/meta.json'))['property'])")
W=$(mktemp -d /tmp/checkseed.XXXXXX)
cp -a /repo $W/repo; mkdir $W/verif; cp -r $V/bin $V/contracts $V/govc $V/replay $V/check.sh $V/build.sh $V/known-findings.jsonl $W/verif/; touch $W/verif/bin/govc
cat > $W/run.sh <<EOF
mount --bind $W/repo /repo || exit 9
cd /repo; git apply $S/patch.diff || { echo APPLY-FAILED; exit 1; }
cd $W/verif; VERIF_SEED=1 VERIF_TIER=quick ./check.sh $P > $W/out.log 2>&1; echo "== $ID ($P) rc=\$?"; grep -v '^KNOWN' $W/out.log | cut -c1-400 | tail -7
EOF
unshare -Urm bash $W/run.sh
rm -rf "$W"
}
for i in "$@"; do one $i; done
