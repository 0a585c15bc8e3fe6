#!/bin/bash
# trybug.sh ID: checks a planted bug (demo on clean, demo on patched, stable tests, its check)
I=$1; S=/verif/seeded/$I; P=$(python3 -c "import json;print(json.load(open('$S/meta.json'))['property'])")
cd /repo; git diff --quiet || { echo "repo dirty"; exit 1; }
bash $S/demo.sh > /tmp/demo.clean 2>&1; echo "$I demo clean rc=$? (want 0)"
git apply $S/patch.diff || exit 1
bash $S/demo.sh > /tmp/demo.patched 2>&1; echo "$I demo patched rc=$? (want !=0)"
[ -z "$NOTEST" ] && { bash /opt/vp/build.sh >/dev/null 2>&1; echo "build rc=$?"; bash /opt/vp/test.sh /tmp/o.json >/dev/null 2>&1; python3 -c "
import json;d=json.load(open('/tmp/o.json'));print('failed:',d['failed'])"; }
[ -z "$NOCHECK" ] && { for p in ${CHECKS:-$P}; do bash /verif/run.sh $p > /tmp/check.out 2>&1; echo "check $p rc=$? (want 1)"; grep -a VIOLATION /tmp/check.out | head -3; done; }
git checkout -q -- .
