#!/bin/bash
# seedtest.sh ID...: confirms planted changes in a scratch copy (/tmp/sr): applies, builds, passes the tests, demo passes without and fails with it.
for id in "$@"; do
  d=/verif/seeded/$id
  rsync -a --delete --exclude target --exclude .git /repo/ /tmp/sr/ 2>/dev/null || { mkdir -p /tmp/sr; cp -a /repo/. /tmp/sr/; }
  rm -rf /tmp/seed_demo; cp -a $d /tmp/seed_demo; rm -f /tmp/seed_demo/*.diff /tmp/seed_demo/meta.json
  (cd /tmp/sr && timeout 300 bash /tmp/seed_demo/demo.sh >/tmp/seed0.log 2>&1); a=$?
  (cd /tmp/sr && git apply $d/patch.diff) || { echo "$id: patch does not apply"; continue; }
  (cd /tmp/sr && timeout 300 bash /tmp/seed_demo/demo.sh >/tmp/seed1.log 2>&1); b=$?
  git -C /repo apply $d/patch.diff || { echo "$id: no apply in repo"; continue; }
  bash /opt/vp/build.sh >/tmp/seedb.log 2>&1; bs=$?
  bash /opt/vp/test.sh /tmp/seedt.json >/tmp/seedt.log 2>&1
  git -C /repo checkout -q -- .
  t=$(python3 - <<'P'
import json
b=json.load(open('/opt/vp/BASELINE.json')); t=json.load(open('/tmp/seedt.json'))
def g(x):
    for k in ('stable','passed','pass'):
        if k in x: return set(x[k] if isinstance(x[k],list) else x[k].keys())
    return set(k for k,v in x.items() if v in('pass','passed',True))
print(len(g(b)-g(t)))
P
)
  echo "$id: demo unpatched=$a patched=$b build=$bs stable tests failing=$t"
done
