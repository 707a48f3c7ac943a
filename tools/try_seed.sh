#!/bin/bash
# try_seed.sh <id> [nocheck]: development helper. Applies a planted bug to /repo,
# runs the stable tests, its demonstration and its property's quick check,
# and takes it back out. Prints one summary line.
ID="$1"; D=/verif/seeded/$ID
PROP=$(python3 -c "import json;print(json.load(open('$D/meta.json'))['property'])")
[ -z "$(git -C /repo status --porcelain)" ] || { echo "repo not clean"; exit 1; }
trap 'git -C /repo checkout -q -- .' EXIT
export DEMO_TARGET=/tmp/demo/target
cd /repo
bash $D/demo.sh >/tmp/seed-$ID-clean.log 2>&1; CLEAN=$?
git -C /repo apply $D/patch.diff || exit 1
T=skip
if [ "${2:-}" != notest ]; then
 bash /opt/vp/test.sh /tmp/seed-$ID.json >/tmp/seed-$ID-test.log 2>&1
 T=$(python3 - <<PY
import json
b=json.load(open('/opt/vp/BASELINE.json')); r=json.load(open('/tmp/seed-$ID.json'))
def names(x):
    for k in ('passed','pass','stable','tests'):
        if k in x:
            v=x[k]; return set(v if isinstance(v,list) else v.keys())
    return set()
print(len(names(b)-names(r)),'lost')
PY
)
fi
bash $D/demo.sh >/tmp/seed-$ID-bug.log 2>&1; BUG=$?
C=-
if [ "${2:-}" != nocheck ]; then VERIF_SEED=${VERIF_SEED:-1} /verif/check.sh $PROP quick >/tmp/seed-$ID-check.log 2>&1; C="$? viol=$(grep -c "VIOLATION property=$PROP" /tmp/seed-$ID-check.log)"; fi
echo "$ID $PROP demo-clean=$CLEAN demo-bug=$BUG tests=$T check=$C"
