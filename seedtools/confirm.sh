#!/bin/bash
# usage: confirm.sh <id> [notests]: demo passes on the unchanged scratch copy, patch applies and builds, tests pass, demo fails
id=$1; S=/verif/seeded/$id; R=/tmp/seedrepo
W=$(mktemp -d /tmp/seeddemo.XXXX); cp $S/* $W/; rm -f $W/patch.diff $W/meta.json
unshare -r -m true 2>/dev/null
run() { # run a command with /tmp/seedrepo mounted at /repo
  unshare -m bash -c "mount --bind $R /repo && cd /repo && $1"; }
run "bash /opt/vp/build.sh > /tmp/seed.b0 2>&1" || { echo "base build failed"; exit 1; }
run "timeout 300 bash $W/demo.sh" > /tmp/seed.d0 2>&1; r0=$?
git -C $R apply $S/patch.diff || { echo "no apply"; exit 1; }
run "bash /opt/vp/build.sh > /tmp/seed.b1 2>&1" || { echo "$id: build fails"; git -C $R checkout -q -- .; exit 1; }
run "timeout 300 bash $W/demo.sh" > /tmp/seed.d1 2>&1; r1=$?
t=skipped
if [ "$2" != notests ]; then
  run "bash /opt/vp/test.sh /tmp/seed.json > /tmp/seed.t 2>&1"
  t=$(python3 - <<'P'
import json
b=set(json.load(open('/opt/vp/BASELINE.json'))['stable']); r=json.load(open('/tmp/seed.json'))
p=set(r.get('passed',r.get('pass',[])))
print('missing %d' % len(b-p), sorted(b-p)[:3])
P
)
fi
git -C $R checkout -q -- .
echo "$id: demo base rc=$r0, patched rc=$r1 ($(tail -1 /tmp/seed.d1)), tests: $t"
