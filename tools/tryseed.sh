#!/bin/bash
# tools/tryseed.sh <seed id> [extra properties...]: confirm a planted bug (applies, stable tests pass, demo discriminates) and run its check
V=$(cd "$(dirname "$0")/.." && pwd); S=$V/seeded/$1
P=$(python3 -c "import json;print(json.load(open('$S/meta.json'))['property'])"); shift
cd /repo || exit 1
git diff --quiet || { echo "repo dirty"; exit 1; }
(bash "$S/demo.sh" >/tmp/demo.out 2>&1) && echo "demo clean: ok" || { echo "demo clean: FAILS"; cat /tmp/demo.out | tail -5; }
git apply "$S/patch.diff" || { echo "patch does not apply"; exit 1; }
trap 'git -C /repo checkout -q -- .' EXIT
bash /opt/vp/test.sh /tmp/o.json >/tmp/o.log 2>&1
python3 - <<'Q'
import json
b=json.load(open('/opt/vp/BASELINE.json')); o=json.load(open('/tmp/o.json'))
k=[x for x in b if 'stable' in x or 'pass' in x]
m=[t for t in b[k[0]] if t not in o['passed']]
print("tests:", "ok" if not m else "BROKEN %s" % m)
Q
(bash "$S/demo.sh" >/tmp/demo.out 2>&1) && echo "demo with patch: PASSES (bad)" || echo "demo with patch: fails (good)"
for p in $P "$@"; do (cd "$V" && ./check.sh $p quick | tail -3 | cut -c1-300); echo "check $p rc=${PIPESTATUS[0]}"; done
