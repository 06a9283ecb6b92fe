#!/bin/bash
# seed.sh ID [notest]: apply the planted change to /repo, build, run the tests, its demonstration and the check of its property, then undo it
id=$1; d=/verif/seeded/$id
cd /repo || exit 2
trap 'git -C /repo checkout -q -- .' EXIT
if ! git diff --quiet; then echo "repo is dirty"; trap - EXIT; exit 2; fi
prop=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
bash /opt/vp/build.sh >/tmp/seed.log 2>&1 || { echo "$id BASE BUILD FAILS"; exit 1; }
bash $d/demo.sh >/tmp/seed.clean 2>&1; c=$?
git apply $d/patch.diff || { echo "$id patch does not apply"; exit 1; }
bash /opt/vp/build.sh >/tmp/seed.log 2>&1 || { echo "$id BUILD FAILS"; tail -5 /tmp/seed.log; exit 1; }
t=skipped
if [ "$2" != notest ]; then bash /opt/vp/test.sh /tmp/seed.json >/tmp/seed.t 2>&1; t=$(grep -o '[0-9]* passed, [0-9]* failed' /tmp/seed.t); fi
bash $d/demo.sh >/tmp/seed.bad 2>&1; b=$?
(cd /verif && python3 run.py $prop quick >/tmp/seed.chk 2>&1); k=$?
git checkout -q -- .
bash /opt/vp/build.sh >/tmp/seed.log 2>&1
echo "$id: demo clean=$c patched=$b tests=[$t] $prop=$k $(grep -c VIOLATION /tmp/seed.chk)"
