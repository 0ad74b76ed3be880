#!/bin/bash
# bugtest.sh BUG [PROP]: runs the quick check of a planted bug's property against a scratch copy of /repo with the bug applied
B=$1; P=${2:-$(python3 -c "import json;print(json.load(open('/verif/seeded/$B/meta.json'))['property'])")}
W=/tmp/bt/$B; rm -rf $W; mkdir -p $W; cp -a /repo $W/repo; (cd $W/repo && git checkout -q -- . && git apply /verif/seeded/$B/patch.diff) || { echo "$B patch does not apply"; exit 3; }
VERIF_SEED=1 VERIF_REPO=$W/repo VERIF_BUILD=$W/build python3 /verif/check.py $P quick > $W/out 2>&1; rc=$?
echo "== $B $P rc=$rc $(grep -a VIOLATION $W/out | cut -c1-200 | head -2)"; grep -a '^# violation\|^  ' $W/out | head -3 | cut -c1-300
[ -n "$KEEP" ] || rm -rf $W
