#!/bin/bash
# developer tool: seedcheck.sh ID...  confirms a planted bug in a scratch copy: applies, builds, passes the tests, demo 0/nonzero
for id in "$@"; do
  S=/verif/seeded/$id; C=/tmp/seedcopy; rm -rf /tmp/seedcopy; D=/tmp/seeddemo; rm -rf /tmp/seeddemo; mkdir /tmp/seeddemo
  cp -a "$S"/. /tmp/seeddemo/; rm -f /tmp/seeddemo/*.diff /tmp/seeddemo/meta.json
  git -C /repo diff --quiet || { echo "repo dirty"; exit 1; }
  bash /opt/vp/build.sh >/dev/null 2>&1; (cd /repo && bash $D/demo.sh >/tmp/seed_u.log 2>&1); u=$?
  git -C /repo apply --check "$S/patch.diff" || { echo "$id: does not apply"; continue; }
  git -C /repo apply "$S/patch.diff"
  bash /opt/vp/build.sh >/tmp/seed_b.log 2>&1; b=$?
  (cd /repo && bash $D/demo.sh >/tmp/seed_p.log 2>&1); p=$?
  t=skip
  if [ -z "$NOTEST" ]; then
    bash /opt/vp/test.sh /tmp/seed_t.json >/dev/null 2>&1
    t=$(python3 -c "
import json
s=json.load(open('/opt/vp/BASELINE.json'))['stable']; p=set(json.load(open('/tmp/seed_t.json'))['passed'])
print(len([x for x in s if x not in p]))")
  fi
  git -C /repo checkout -q -- .
  echo "$id: demo-unpatched=$u build=$b demo-patched=$p stable-tests-lost=$t"
done
bash /opt/vp/build.sh >/dev/null 2>&1
