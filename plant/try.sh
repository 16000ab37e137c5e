#!/bin/bash
# try.sh <id>...   runs planted bugs: stable tests, demonstration, and the property's quick check
cd /verif/seeded || exit 2
for b in "$@"; do
  p=$(python3 -c "import json;print(json.load(open('$b/meta.json'))['property'])")
  git -C /repo diff --quiet || { echo "/repo is not clean"; exit 2; }
  git -C /repo apply /verif/seeded/$b/patch.diff || { echo "$b: does not apply"; continue; }
  bash /opt/vp/build.sh >/tmp/try-build.log 2>&1; bu=$?
  bash /opt/vp/test.sh /tmp/try-test.json >/dev/null 2>&1
  t=$(python3 -c "
import json
r=json.load(open('/tmp/try-test.json')); s=json.load(open('/opt/vp/BASELINE.json'))['stable']
print(sum(x in r['passed'] for x in s), 'of', len(s)) if 'passed' in r else print(list(r)[:5])")
  d=-; [ "$DEMO" = 0 ] || { (cd /repo && bash /verif/seeded/$b/demo.sh >/tmp/try-demo.log 2>&1); d="$? $(tail -1 /tmp/try-demo.log)"; }
  s=$(date +%s)
  /verif/check ${CHECK:-$p} quick >/tmp/try-$b.log 2>&1; c=$?
  git -C /repo checkout -q -- .
  echo "$b [$p]: build $bu, tests $t, demo: $d, check $c in $(($(date +%s)-s)) s: $(grep -c ^VIOLATION /tmp/try-$b.log) $(grep -m1 -A1 ^VIOLATION /tmp/try-$b.log | cut -c1-150 | tr '\n' ' ')"
done
