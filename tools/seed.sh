#!/bin/bash
# seed.sh ID...   : development aid. For each seeded change: apply to /repo, build, run the stable tests and
# the demo, undo; with CHECKS="C01 C02" also runs those checks (default: the property of meta.json).
V=$(cd "$(dirname "$0")/.." && pwd)
for id in "$@"; do
  D=$V/seeded/$id
  P=$(python3 -c "import json;print(json.load(open('$D/meta.json'))['property'])")
  git -C /repo apply --check "$D/patch.diff" || { echo "$id: does not apply"; continue; }
  if [ -z "${CHECKONLY:-}" ]; then
    [ -n "${NOBASE:-}" ] || (cd /repo && cp -r "$D" /tmp/seeddemo.$$ && bash /tmp/seeddemo.$$/demo.sh >/tmp/seed.$$.o 2>&1; echo "$id: demo unchanged rc=$?"; rm -rf /tmp/seeddemo.$$)
  fi
  git -C /repo apply "$D/patch.diff"
  if [ -z "${CHECKONLY:-}" ]; then
    bash /opt/vp/build.sh >/tmp/seed.$$.b 2>&1 || echo "$id: BUILD FAILED"
    bash /opt/vp/test.sh /tmp/seed.$$.json >/tmp/seed.$$.t 2>&1
    python3 - "$id" /tmp/seed.$$.json <<'PY'
import json, sys
b = json.load(open('/opt/vp/BASELINE.json')); o = json.load(open(sys.argv[2]))
m = [t for t in b['stable'] if t not in o['passed']]
print('%s: stable tests missing %d %s' % (sys.argv[1], len(m), m[:3]))
PY
    (cd /repo && cp -r "$D" /tmp/seeddemo.$$ && bash /tmp/seeddemo.$$/demo.sh >/tmp/seed.$$.o 2>&1; echo "$id: demo patched rc=$? $(head -c 200 /tmp/seed.$$.o | tr '\n' ' ')"; rm -rf /tmp/seeddemo.$$)
  fi
  for c in ${CHECKS:-$P}; do
    VF_EVIDENCE=/tmp/seed.ev VF_REPLAYS=/tmp/seed.rp timeout 900 bash "$V/run.sh" check $c quick >/tmp/seed.$$.c 2>&1
    rc=$?
    if [ $rc -eq 1 ]; then echo "$id: $c CAUGHT $(grep -h 'violated by' /tmp/seed.$$.c | cut -c1-150) $(tail -1 /tmp/seed.$$.c | grep -o '[0-9.]* s$')"; else echo "$id: $c missed rc=$rc $(tail -1 /tmp/seed.$$.c)"; fi
  done
  git -C /repo checkout -- .
  rm -f /tmp/seed.$$.*
done
