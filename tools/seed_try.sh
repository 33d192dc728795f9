#!/bin/bash
# usage: seed_try.sh ID [PROPERTY...]: demo on the clean tree, then patch /repo, build, tests, demo, checks, undo
id=$1; shift
d=/verif/seeded/$id
[ -z "$(git -C /repo status --porcelain)" ] || { echo "repo dirty"; exit 2; }
trap 'git -C /repo checkout -q -- .' EXIT
cd /repo
bash /opt/vp/build.sh >/tmp/st.build 2>&1 || { echo "clean build failed"; exit 2; }
bash $d/demo.sh >/tmp/st.demo0 2>&1; echo "demo clean: $?"
git apply $d/patch.diff || exit 2
bash /opt/vp/test.sh /tmp/st.json >/tmp/st.test 2>&1
python3 - <<'P'
import json
b=json.load(open('/opt/vp/BASELINE.json'))['stable']; o=json.load(open('/tmp/st.json'))['passed']
print("tests failing with the patch:", sorted(set(b)-set(o)))
P
bash $d/demo.sh >/tmp/st.demo1 2>&1; echo "demo patched: $?"; tail -2 /tmp/st.demo1
props="$*"; [ -n "$props" ] || props=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
cd /verif
for p in $props; do VERIF_SEED=${VERIF_SEED:-1} python3 tools/check.py $p quick > /tmp/st.check.$p 2>&1; echo "check $p: $?"; grep -v "^check\|^ " /tmp/st.check.$p | cut -c1-220; done
