#!/bin/bash
# Development aid: confirms a planted bug (seeded/<id>) in /repo and runs the check of its property against it.
# usage: seed.sh ID [nocheck]
ID=$1; S=/verif/seeded/$ID; P=$(python3 -c "import json;print(json.load(open('$S/meta.json'))['property'])")
cd /repo || exit 2
[ -z "$(git status --short -uno)" ] || { echo "repo dirty"; exit 2; }
if [ ! -e /tmp/clean.built ] || [ "$(cat /tmp/clean.built)" != "$(git rev-parse HEAD)" ]; then bash /opt/vp/build.sh >/tmp/seed.build 2>&1 || { echo "clean build failed"; exit 2; }; fi
timeout 300 bash $S/demo.sh >/tmp/seed.demo0 2>&1; echo "$ID demo clean rc=$? (want 0)"
git apply $S/patch.diff || { echo "does not apply"; exit 2; }
trap 'git -C /repo checkout -q -- .; bash /opt/vp/build.sh >/tmp/seed.build 2>&1; git rev-parse HEAD > /tmp/clean.built' EXIT
bash /opt/vp/test.sh /tmp/seed.tests.json >/tmp/seed.tests 2>&1
python3 - <<'P'
import json
b=json.load(open('/opt/vp/BASELINE.json')); b=b.get('stable',b.get('passed',b)) if isinstance(b,dict) else b
r=json.load(open('/tmp/seed.tests.json')); m=[t for t in b if t not in r['passed']]
print('tests: %d passed, baseline missing: %s (want [])'%(len(r['passed']),m[:5]))
P
timeout 300 bash $S/demo.sh >/tmp/seed.demo1 2>&1; echo "$ID demo patched rc=$? (want != 0)"
[ "$2" = nocheck ] || { cd /verif; python3 check.py $P 2>/tmp/seed.check.err | cut -c1-200; echo "$ID check rc=${PIPESTATUS[0]} (want 1)"; }
