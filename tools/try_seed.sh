#!/bin/bash
# usage: try_seed.sh ID [check args]   applies seeded/ID to /repo, confirms that it
# builds, passes the tests and fails its demo, runs the check of its property,
# and takes it back.
id=$1; shift
d=/verif/seeded/$id
prop=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
[ -z "$(git -C /repo status --porcelain)" ] || { echo "repo not clean"; exit 2; }
(cd /repo && timeout 300 bash $d/demo.sh >/tmp/seed_demo0.log 2>&1); r0=$?
git -C /repo apply $d/patch.diff || exit 2
bash /opt/vp/build.sh >/tmp/seed_bld.log 2>&1 || echo "BUILD FAILED"
t=$(bash /opt/vp/test.sh /tmp/seed_tests.json 2>&1 | tail -1)
(cd /repo && timeout 300 bash $d/demo.sh >/tmp/seed_demo1.log 2>&1); r1=$?
(cd /verif && python3 check.py $prop "$@" >/tmp/seed_check.log 2>&1); rc=$?
git -C /repo checkout -- .
bash /opt/vp/build.sh >/tmp/seed_bld.log 2>&1
v=$(grep -c "^VIOLATION property=$prop " /tmp/seed_check.log)
echo "$id prop=$prop demo_clean=$r0 demo_patched=$r1 tests='$t' check_rc=$rc violations=$v"
