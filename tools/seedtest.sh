#!/bin/bash
# seedtest.sh ID...: on /repo, apply each planted bug, build, test, demo, check; undo.
cd /repo || exit 1
[ -n "$(git status --porcelain)" ] && { echo dirty; exit 1; }
for id in "$@"; do
  d=/verif/seeded/$id
  prop=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
  cp -a $d /tmp/vp-demo-$id; rm -f /tmp/vp-demo-$id/patch.diff /tmp/vp-demo-$id/meta.json
  if [ -z "$SKIP_CLEAN" ]; then
    bash /opt/vp/build.sh >/dev/null 2>&1
    timeout 300 bash /tmp/vp-demo-$id/demo.sh >/tmp/vp-demo.out 2>&1; clean=$?
  else clean=skipped; fi
  git apply $d/patch.diff || { echo "$id: patch does not apply"; rm -rf /tmp/vp-demo-$id; continue; }
  bash /opt/vp/build.sh >/tmp/vp-build.out 2>&1; b=$?
  bash /opt/vp/test.sh /tmp/vp-o.json >/tmp/vp-test.out 2>&1; t=$(tail -1 /tmp/vp-test.out)
  timeout 300 bash /tmp/vp-demo-$id/demo.sh >/tmp/vp-demo2.out 2>&1; mut=$?
  out=$(cd /verif && timeout 900 ./run.py $prop quick 2>&1); rc=$?
  git checkout -q -- .
  echo "$id prop=$prop clean_demo=$clean build=$b tests=[$t] mutant_demo=$mut check_rc=$rc $(echo "$out" | grep -c "VIOLATION property=$prop")"
  [ "$rc" != 1 ] && echo "$out" | tail -3
  rm -rf /tmp/vp-demo-$id
done
bash /opt/vp/build.sh >/dev/null 2>&1
git status --short
