#!/bin/bash
# tryseed.sh <seed id> [check binary]: does the seed build, pass the tests, and does its demo tell it apart? Then runs the property's check against it.
# Works on a scratch copy for build/tests is not possible (build.sh names /repo), so it applies the patch to /repo and undoes it.
d=/verif/seeded/$1; p=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
cd /repo; [ -z "$(git status --porcelain)" ] || { echo "repo dirty"; exit 2; }
if [ -z "${SKIPDEMO:-}" ]; then bash $d/demo.sh >/tmp/ts.clean 2>&1; echo "demo clean: $?"; fi
git apply $d/patch.diff || { echo "patch does not apply"; exit 2; }
trap 'git -C /repo checkout -q -- .' EXIT
if [ -z "${SKIPDEMO:-}" ]; then
bash /opt/vp/build.sh >/tmp/ts.build 2>&1 && echo "build ok" || echo "BUILD FAILS"
bash /opt/vp/test.sh /tmp/ts.json >/tmp/ts.test 2>&1; tail -1 /tmp/ts.test
bash $d/demo.sh >/tmp/ts.patched 2>&1; echo "demo patched: $? ($(tail -1 /tmp/ts.patched | cut -c1-150))"
fi
bin=$(python3 -c "
import json
for c in json.load(open('/verif/MANIFEST.json'))['checks']:
    if c['property']=='$p': print(c['quick_cmd'])")
cd /verif; s=$(date +%s); VERIF_SEED=1 VERIF_TIER=quick $bin >/tmp/ts.check 2>&1; echo "$1 check $p: rc=$? $(( $(date +%s)-s ))s $(grep -a -c ^VIOLATION /tmp/ts.check) $(grep -a '^\[' /tmp/ts.check | head -1 | cut -c1-160)"
