#!/bin/bash
# plant.sh ID...: for each seeded bug: patch builds, stable tests pass, demo fails with it
# and passes without it, and the property's quick check reports it. Leaves /repo clean.
cd "$(dirname "$0")/.."
V=$PWD
tests() { bash /opt/vp/build.sh >/tmp/plant.b 2>&1 || { echo BUILD-FAILED; tail -5 /tmp/plant.b; return; }
  bash /opt/vp/test.sh /tmp/plant.json >/dev/null 2>&1
  python3 -c "
import json;o=json.load(open('/tmp/plant.json'));b=json.load(open('/opt/vp/BASELINE.json'))
m=set(b['stable'])-set(o['passed']);print('tests-ok' if not m else 'TESTS-FAIL %s'%sorted(m)[:4])"; }
[ -n "$(git -C /repo status --porcelain)" ] && { echo "/repo not clean"; exit 1; }
for id in "$@"; do
  d=$V/seeded/$id; p=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
  tmp=$(mktemp -d /tmp/plantdemo.XXXXXX); cp $d/* $tmp/; rm $tmp/patch.diff $tmp/meta.json
  git -C /repo apply $d/patch.diff || { echo "$id APPLY-FAILED"; continue; }
  t=$(tests)
  (cd /repo && timeout 300 bash $tmp/demo.sh >/tmp/plant.demo 2>&1); dm=$?
  if [ -z "$NOCHECK" ]; then
  s=$(date +%s); VERIF_SEED=${VERIF_SEED:-1} VERIF_TIER=quick timeout 900 python3 check.py $p >/tmp/plant.chk.$id 2>&1; c=$?; e=$(($(date +%s)-s))
  v=$(grep -c "^VIOLATION property=$p " /tmp/plant.chk.$id); fi
  git -C /repo checkout -q -- . ; git -C /repo clean -fdq src
  if [ -n "$CLEAN" ]; then tests >/dev/null; (cd /repo && timeout 300 bash $tmp/demo.sh >/tmp/plant.demo0 2>&1); d0=$?; else d0=skip; fi
  echo "$id $p $t demo=$dm clean=$d0 check=$c viol=$v ${e}s :: $(tail -1 /tmp/plant.demo | cut -c1-150)"
  rm -rf "$tmp"
done
bash /opt/vp/build.sh >/dev/null 2>&1
