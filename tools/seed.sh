#!/bin/bash
# seed.sh ID: (re)validates seeded/ID in a scratch copy of /repo: applies, builds, passes the tests,
# demo exits 0 without and nonzero with the patch
id=$1; V=/verif/seeded/$id
W=/tmp/wt_seed; rm -rf /tmp/wt_seed; cp -a /repo /tmp/wt_seed
D=/tmp/seed_demo; rm -rf /tmp/seed_demo; cp -a $V /tmp/seed_demo
git -C /repo apply --check $V/patch.diff || { echo "$id: does not apply"; exit 1; }
cd /repo; bash $D/demo.sh >/tmp/seed_clean.log 2>&1; c=$?
git -C /repo apply $V/patch.diff
bash /opt/vp/build.sh >/tmp/seed_build.log 2>&1 || echo "$id: BUILD FAILED"
bash /opt/vp/test.sh /tmp/seed_t.json > /tmp/seed_test.log 2>&1; t=$(tail -1 /tmp/seed_test.log)
bash $D/demo.sh >/tmp/seed_bad.log 2>&1; b=$?
if [ -n "$2" ]; then
  p=$(python3 -c "import json;print(json.load(open('$V/meta.json'))['property'])")
  (cd /verif; timeout 900 python3 check.py $p quick > /tmp/seed_check.log 2>&1; echo "$id: check $p exit $?"; grep -c VIOLATION /tmp/seed_check.log)
fi
git -C /repo checkout -- .
bash /opt/vp/build.sh >/dev/null 2>&1
rm -rf /tmp/wt_seed /tmp/seed_demo
echo "$id: demo clean=$c patched=$b tests: $t"
