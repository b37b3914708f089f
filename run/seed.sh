#!/bin/bash
# seed.sh ID [check...]: validates seeded/ID (build, tests, demo on both trees) and runs checks on it
# usage with no checks: only validation
id=$1; shift
d=/verif/seeded/$id
cd /repo || exit 2
[ -z "$(git status --porcelain)" ] || { echo "repo not clean"; exit 2; }
trap 'git -C /repo checkout -q -- . ' EXIT
if [ -z "$NOVAL" ]; then
bash /opt/vp/build.sh >/tmp/seed-b.log 2>&1 || { echo build; exit 1; }
bash $d/demo.sh >/tmp/seed-d0.log 2>&1; r0=$?
git apply $d/patch.diff || { echo "patch does not apply"; exit 1; }
bash /opt/vp/build.sh >/tmp/seed-b.log 2>&1 || { tail -20 /tmp/seed-b.log; echo "patched build fails"; exit 1; }
bash /opt/vp/test.sh /tmp/seed-t.json >/dev/null 2>&1
t=$(python3 -c "import json;d=json.load(open('/tmp/seed-t.json'));print(len(d['passed']),len(d['failed']))")
bash $d/demo.sh >/tmp/seed-d1.log 2>&1; r1=$?
echo "$id: demo unchanged=$r0 patched=$r1 ($(tail -1 /tmp/seed-d1.log | cut -c1-100)) tests=$t"
else git apply $d/patch.diff || exit 1; fi
for c in "$@"; do
  timeout 900 python3 /verif/run/check.py $c quick >/tmp/seed-c.log 2>&1; rc=$?
  echo "  $c rc=$rc $(grep -A1 '^VIOLATION' /tmp/seed-c.log | tr '\n' ' ' | cut -c1-160)"
done
