#!/bin/bash
# tools/plant.sh ID [PROPERTY ...]: confirm a planted bug in a scratch copy (builds, stable tests pass, demo flips)
# and say which checks catch it. SKIPTEST=1 skips the test suite.
set -u
V=$(cd "$(dirname "$0")/.." && pwd); S=/tmp/lf-scratch; ID=$1; shift; D=$V/seeded/$ID
PROPS=${*:-$(python3 -c "import json;print(json.load(open('$D/meta.json'))['property'])")}
if [ ! -d $S/.git ] || [ "$(git -C $S rev-parse HEAD)" != "$(git -C /repo rev-parse HEAD)" ]; then rm -rf /tmp/lf-scratch; cp -a /repo $S; fi
git -C $S checkout -q -- . ; git -C $S clean -fdq
env_() { sed "s#^cd /repo#cd $S#" /opt/vp/env.sh > /tmp/lf-env.sh; }
env_
build() { ( . /tmp/lf-env.sh; node_modules/.bin/turbo run build --cache=local:rw --output-logs=errors-only --ui=stream ) >/tmp/lf-build.log 2>&1; }
X=$(mktemp -d); cp $D/demo* $X/ 2>/dev/null; for f in $D/*; do case $f in *.diff|*/meta.json) ;; *) cp -r $f $X/;; esac; done
build || { echo "$ID clean build failed"; exit 1; }
(cd $S && timeout 300 bash $X/demo.sh >/tmp/lf-demo-clean.log 2>&1); c=$?
git -C $S apply $D/patch.diff || { echo "$ID patch does not apply"; exit 1; }
build || { echo "$ID patched build FAILED"; tail -20 /tmp/lf-build.log; git -C $S checkout -q -- .; exit 1; }
(cd $S && timeout 300 bash $X/demo.sh >/tmp/lf-demo-bug.log 2>&1); b=$?
t=skipped
if [ -z "${SKIPTEST:-}" ]; then
 ( . /tmp/lf-env.sh; rm -rf /tmp/lf-reports; mkdir -p /tmp/lf-reports
 node_modules/.bin/vitest run --project=unit --project=integration --reporter=json --outputFile.json=/tmp/lf-reports/vitest.json
 node_modules/.bin/vitest run --project=e2e tests/e2e/prompts.e2e.test.ts -t "prompt compilation" --reporter=json --outputFile.json=/tmp/lf-reports/vitest-e2e.json ) >/tmp/lf-test.log 2>&1
 sed "s#/repo#$S#g" /opt/vp/results.py > /tmp/lf-results.py; python3 /tmp/lf-results.py /tmp/lf-o.json "jest:/tmp/lf-reports/vitest*.json" >/dev/null 2>&1
 t=$(python3 - <<P
import json
o=json.load(open('/tmp/lf-o.json'));b=json.load(open('/opt/vp/BASELINE.json'));st=b['stable'] if 'stable' in b else b
m=[x for x in st if x not in set(o['passed'])];print('ok' if not m else 'FAIL %d %s'%(len(m),m[:3]))
P
)
fi
r=""
for p in $PROPS; do o=$(cd $V && VERIF_SEED=1 LF_REPO=$S timeout 900 node sim/check.mjs $p --tier quick 2>&1); rc=$?; r="$r $p:rc=$rc"; echo "$o" | grep -A1 '^VIOLATION' | tail -1; done
echo "$ID demo clean=$c patched=$b tests=$t checks:$r"
git -C $S checkout -q -- .; rm -rf "$X"
