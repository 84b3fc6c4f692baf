#!/bin/bash
# plant.sh ID [CHECK]: confirm a planted bug of /verif/seeded/ID against /repo's working tree, run its check, undo it.
ID=$1; S=/verif/seeded/$ID
cd /repo && git diff --quiet && [ -z "$(git status --short)" ] || { echo "repo not clean"; exit 9; }
P=${2:-$(python3 -c "import json;print(json.load(open('$S/meta.json'))['property'])")}
undo() { git -C /repo checkout -q -- .; bash /opt/vp/build.sh >/dev/null 2>&1; }
bash $S/demo.sh >/tmp/plant.demo0 2>&1 && echo "demo clean: ok" || { echo "demo clean: FAILS"; tail -5 /tmp/plant.demo0; exit 1; }
trap undo EXIT
git apply $S/patch.diff || { echo "does not apply"; exit 1; }
bash /opt/vp/build.sh >/tmp/plant.build 2>&1 || { echo "does not build"; tail -5 /tmp/plant.build; exit 1; }
bash /opt/vp/test.sh /tmp/plant.json >/dev/null 2>&1
python3 - <<'PY'
import json
b=set(json.load(open('/opt/vp/BASELINE.json'))['stable']); p=set(json.load(open('/tmp/plant.json'))['passed'])
m=sorted(b-p); print('stable tests missing:', len(m), m[:3])
PY
bash $S/demo.sh >/tmp/plant.demo1 2>&1 && echo "demo patched: PASSES (bad)" || { echo "demo patched: fails (good)"; grep -a -m3 -E -- 'demo_test|panic|FAIL' /tmp/plant.demo1; }
(cd /verif && ./check $P 2>&1 | grep -a -E '^VIOLATION|CHECK ERROR|INFRA|^OK|held' | head -3; exit ${PIPESTATUS[0]}); echo "check $P exit $?"
