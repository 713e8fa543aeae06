#!/bin/bash
# seedtest.sh ID... : confirms planted bugs (builds, passes the tests, the demo tells the difference); CHECK=1 also runs the property's check
export REPO=${REPO:-/repo} # tests are run for /repo only
V=$(cd "$(dirname "$0")/.." && pwd)
base() { python3 -c "
import json;b=json.load(open('/opt/vp/BASELINE.json'));t=json.load(open('$1'))
def names(x):
    for k in ('stable','passed','tests','reliable'):
        if isinstance(x.get(k),list): return set(map(str,x[k]))
    return set()
print(len(set(map(str,t['passed']))), len(t['failed']))"; }
git -C $REPO diff --quiet || { echo "$REPO is not clean"; exit 1; }
trap 'git -C $REPO checkout -q -- .' EXIT
for id in "$@"; do
  D=$V/seeded/$id
  cp -r $D /tmp/demo-$id
  rm -f /tmp/demo-$id/patch.diff /tmp/demo-$id/meta.json
  (cd $REPO && timeout 300 bash /tmp/demo-$id/demo.sh >/tmp/demo-$id.clean 2>&1); a=$?
  git -C $REPO apply $D/patch.diff || { echo "$id: patch does not apply"; continue; }
  if [ -z "$NOTEST" -a "$REPO" = /repo ]; then
  bash /opt/vp/build.sh >/tmp/seed.log 2>&1 || { echo "$id: does not build"; tail -3 /tmp/seed.log; }
  bash /opt/vp/test.sh /tmp/seed.json >/tmp/seed.log 2>&1
  t=$(base /tmp/seed.json)
  fi
  (cd $REPO && timeout 300 bash /tmp/demo-$id/demo.sh >/tmp/demo-$id.bug 2>&1); b=$?
  P=$(python3 -c "import json;print(json.load(open('$D/meta.json'))['property'])")
  c=-
  if [ -n "$CHECK" ]; then s=$(date +%s); timeout 900 python3 $V/bin/check.py $P >/tmp/seed-$id.log 2>&1; c="$? $(grep -c "VIOLATION property=$P" /tmp/seed-$id.log) $(( $(date +%s)-s ))s"; fi
  git -C $REPO checkout -q -- .
  echo "$id ($P): demo clean=$a bug=$b tests(pass fail)=$t check=$c $(tail -1 /tmp/demo-$id.bug | cut -c1-100)"
  rm -rf /tmp/demo-$id
done
