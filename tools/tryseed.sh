#!/bin/bash
# tryseed.sh <id> [property...]: demo on clean tree, apply, demo, run the checks, restore
s=/verif/seeded/$1; shift
cd /repo || exit 1
git diff --quiet || { echo "repo dirty"; exit 1; }
bash "$s/demo.sh" >/tmp/demo0.out 2>&1; echo "demo clean: $?"
git apply "$s/patch.diff" || exit 1
if git diff --name-only | grep -q '\.f90$\|\.c$'; then bash /opt/vp/build.sh >/dev/null 2>&1; fi
bash "$s/demo.sh" >/tmp/demo1.out 2>&1; echo "demo patched: $?"
tail -3 /tmp/demo1.out
ps="$@"
[ -z "$ps" ] && ps=$(python3 -c "import json;print(json.load(open('$s/meta.json'))['property'])")
for p in $ps; do (cd /verif; ./run.sh $p > /tmp/chk.out 2>&1; echo "check $p: $?"; grep -A1 '^VIOLATION' /tmp/chk.out | head -4 | cut -c1-400); done
if [ -n "$TESTS" ]; then bash /opt/vp/test.sh /tmp/t.json >/dev/null 2>&1; python3 - <<'PY'
import json
b=json.load(open('/opt/vp/BASELINE.json')); t=json.load(open('/tmp/t.json'))
print('tests', {k: (len(v) if hasattr(v,'__len__') else v) for k,v in t.items()} if isinstance(t,dict) else len(t))
PY
fi
git checkout -q -- .
