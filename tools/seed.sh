#!/bin/bash
# tools/seed.sh ID [nocheck]: confirm a planted bug (demo passes without it; builds, tests pass, demo fails with it) and run its check
id=$1; d=/verif/seeded/$id
prop=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
cd /repo || exit 2
test -z "$(git status --porcelain)" || { echo "repo dirty"; exit 2; }
trap 'git -C /repo checkout -q -- .' EXIT
bash /opt/vp/build.sh >/dev/null 2>&1
timeout 300 bash $d/demo.sh >/tmp/seed.out 2>&1; a=$?
git apply $d/patch.diff || { echo "$id: patch does not apply"; exit 2; }
bash /opt/vp/build.sh >/tmp/seed.build 2>&1 || { echo "$id: build fails"; tail -5 /tmp/seed.build; exit 2; }
t=$(bash /opt/vp/test.sh /tmp/seed.json 2>&1 | tail -1)
timeout 300 bash $d/demo.sh >/tmp/seed.out2 2>&1; b=$?
c=-
if [ "$2" != nocheck ]; then (cd /verif && timeout 900 python3 run_check.py $prop quick >/tmp/seed.chk 2>&1); c=$?; fi
git -C /repo checkout -q -- .
bash /opt/vp/build.sh >/dev/null 2>&1
echo "$id: property=$prop demo clean=$a planted=$b tests=[$t] check=$c $(grep -c '^VIOLATION property='$prop /tmp/seed.chk)"
if [ "$a" != 0 ]; then tail -3 /tmp/seed.out; fi
