#!/bin/bash
# seed.sh ID [checks...]: confirm a planted bug: builds, stable tests pass, demo 0 without / nonzero with it; then run the checks against it. Leaves /repo clean.
S=/verif/seeded/$1; shift
cd /repo; [ -z "$(git status --porcelain)" ] || { echo "repo dirty"; exit 2; }
trap 'git -C /repo checkout -- .' EXIT
if [ -z "$NOBASE" ]; then bash /opt/vp/build.sh >/tmp/sb.log 2>&1; timeout 300 bash $S/demo.sh >/tmp/sd0.log 2>&1; echo "demo unchanged rc=$?"; fi
git apply $S/patch.diff || exit 2
if [ -z "$NOTEST" ]; then
bash /opt/vp/build.sh >/tmp/sb.log 2>&1 || { echo BUILD FAILED; tail -5 /tmp/sb.log; exit 2; }
timeout 300 bash $S/demo.sh >/tmp/sd1.log 2>&1; echo "demo patched rc=$?"
bash /opt/vp/test.sh /tmp/so.json >/tmp/st.log 2>&1
python3 -c "
import json;o=json.load(open('/tmp/so.json'));b=json.load(open('/opt/vp/BASELINE.json'))['stable'];print('stable tests failing:',sorted(set(b)-set(o['passed'])))"
fi
cd /verif; for c in "$@"; do python3-vt irvc/check.py $c; echo "check $c rc=$?"; done
