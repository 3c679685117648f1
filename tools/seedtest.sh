#!/bin/bash
# Confirm a planted bug in scratch copies: seedtest.sh ID [CHECK...]
# (builds, passes the stable tests, demo passes without and fails with it, which checks report it)
ID=$1; shift
S=/verif/seeded/$ID
P=$(python3 -c "import json;print(json.load(open('$S/meta.json'))['property'])")
CHECKS=${*:-$P}
R=/tmp/seed-$ID; V=/tmp/seedv-$ID; D=/tmp/seedd-$ID
rm -rf $R $V $D; cp -a /repo $R; mkdir $D; cp $S/demo* $D/ 2>/dev/null; cp $S/*.py $D/ 2>/dev/null
ns() { unshare -Urm bash -c "mount --bind $R /repo; $1"; }
git -C $R apply $S/patch.diff || { echo "$ID: patch does not apply"; exit 2; }
git -C $R apply -R $S/patch.diff
ns "cd /repo && bash /opt/vp/build.sh >/tmp/seed-$ID.log 2>&1 && bash $D/demo.sh" >/tmp/seed-$ID.out 2>&1; a=$?
git -C $R apply $S/patch.diff
ns "bash /opt/vp/build.sh" >/tmp/seed-$ID.log 2>&1 || { echo "$ID: does not build"; tail -5 /tmp/seed-$ID.log; exit 2; }
ns "bash /opt/vp/test.sh /tmp/seed-$ID.json" >/dev/null 2>&1
t=$(python3 - <<X
import json
b=json.load(open('/opt/vp/BASELINE.json')); o=json.load(open('/tmp/seed-$ID.json'))
def passed(o):
    for k in ('passed','stable','tests','pass'):
        if k in o: return set(o[k])
    raise SystemExit(str(list(o)))
print(sorted(set(b["stable"])-passed(o)) or 'ok')
X
)
ns "cd /repo && bash $D/demo.sh" >/tmp/seed-$ID.out2 2>&1; b=$?
echo "$ID: property $P tests: $t demo unchanged: $a changed: $b"
cp -a /verif $V; rm -rf $V/seeded
for c in $CHECKS; do
    unshare -Urm bash -c "mount --bind $R /repo; mount --bind $V /verif; cd /verif; VERIF_SEED=1 VERIF_TIER=quick timeout 900 python3 run.py check $c" >/tmp/seed-$ID.$c.log 2>&1; rc=$?
    echo "$ID: check $c exit $rc $(grep -m1 VIOLATION /tmp/seed-$ID.$c.log)"
done
rm -rf $R $V $D
