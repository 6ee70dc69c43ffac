#!/bin/bash
# Try a planted bug: tools/trybug.sh ID [clean]   (development aid; no check uses it)
# Works on a bind-mounted copy of /repo in a private mount namespace.
ID=$1; D=${SEEDED:-/verif/seeded}/$ID; W=/tmp/bug-$ID-$$
mkdir -p $W; cp -a /repo $W/repo
if [ "$2" != clean ]; then (cd $W/repo && git apply $D/patch.diff) || { echo "patch does not apply"; rm -rf "$W"; exit 2; }; fi
P=$(python3 -c "import json;print(json.load(open('$D/meta.json'))['property'])")
unshare -m bash -c "
mount --bind $W/repo /repo; cd /repo
bash /opt/vp/build.sh >$W/build.log 2>&1 || { echo BUILD FAILED; tail -20 $W/build.log; exit 1; }
timeout 300 bash $D/demo.sh >$W/demo.log 2>&1; echo demo exit \$?; tail -5 $W/demo.log
[ '$2' = clean ] && exit 0
bash /opt/vp/test.sh $W/t.json >$W/test.log 2>&1; python3 - <<'P'
import json; t=json.load(open('$W/t.json')); b=json.load(open('/opt/vp/BASELINE.json'))
bad=[x for x in b['stable'] if x not in t['passed']]; print('stable tests not passing:', len(bad), bad[:3])
P
[ '$2' = nocheck ] && exit 0
cd /verif; VERIF_SEED=1 VERIF_TIER=quick timeout 900 bin/check $P ${3:+--only $3} 2>&1 | tail -3 | cut -c1-600
"
rm -rf "$W"
