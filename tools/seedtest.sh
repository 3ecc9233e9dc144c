#!/bin/bash
# seedtest.sh ID...: for each seeded change: demo passes clean, patch applies, stable tests pass, demo fails, and does the check report it?
# Applies the change to /repo's working tree and undoes it.
cd /repo
for id in "$@"; do
  d=/verif/seeded/$id; p=$(/opt/venv/bin/python -c "import json;print(json.load(open('$d/meta.json'))['property'])")
  git -C /repo diff --quiet || { echo "/repo dirty"; exit 2; }
  bash $d/demo.sh >/tmp/seed.out 2>&1 || { echo "$id: demo FAILS on clean tree"; tail -5 /tmp/seed.out; continue; }
  git apply $d/patch.diff || { echo "$id: patch does not apply"; continue; }
  t=""
  if [ -z "$NOTESTS" ]; then
    bash /opt/vp/build.sh >/tmp/seed.build 2>&1 || t="BUILD FAILS "
    bash /opt/vp/test.sh /tmp/seed.json >/dev/null 2>&1
    t="$t$(/opt/venv/bin/python -c "
import json
o=json.load(open('/tmp/seed.json')); b=json.load(open('/opt/vp/BASELINE.json'))['stable']
m=sorted(set(b)-set(o['passed'])); print('tests ok' if not m else 'TESTS FAIL %s'%m[:3])")"
  fi
  bash $d/demo.sh >/tmp/seed.out 2>&1 && dm="demo PASSES WITH PATCH" || dm="demo ok ($(tail -1 /tmp/seed.out | cut -c1-100))"
  (cd /verif && VERIF_SEED=1 VERIF_TIER=quick timeout 900 python3 run.py $p >/tmp/seed.chk 2>&1; echo "rc=$?" >>/tmp/seed.chk)
  c=$(grep -c "^VIOLATION property=$p" /tmp/seed.chk); r=$(tail -1 /tmp/seed.chk)
  git checkout -q -- .
  echo "$id [$p]: $t; $dm; check: violations=$c $r"
  rm -f /verif/evidence/replay-*
done
bash /opt/vp/build.sh >/dev/null 2>&1
