#!/bin/bash
# tools/seed.sh ID [test files relative to tests/ ...]: confirm a planted bug in a scratch copy, and run its check on it.
ID=$1; shift
D=/verif/seeded/$ID; W=/tmp/sd-$ID
PROP=$(python3 -c "import json;print(json.load(open('$D/meta.json'))['property'])")
rm -rf "$W"; cp -a /repo "$W" || exit 9
git -C "$W" apply "$D/patch.diff" || { echo "$ID: patch does not apply"; rm -rf "$W"; exit 9; }
export PATH=/opt/venv/bin:$PATH PYTHONDONTWRITEBYTECODE=1 TF_USE_LEGACY_KERAS=1 CUDA_VISIBLE_DEVICES= TF_CPP_MIN_LOG_LEVEL=3
(cd /repo && bash "$D/demo.sh" >/tmp/sd-$ID.demo0 2>&1); R0=$?
(cd "$W" && bash "$D/demo.sh" >/tmp/sd-$ID.demo1 2>&1); R1=$?
T=ok
for t in "$@"; do
  (cd "$W" && HOME=/tmp/sd-$ID.home TMPDIR=/tmp timeout 900 python -m pytest -q -p no:cacheprovider --timeout=600 tests/$t -o junit_family=xunit2 --junitxml=/tmp/sd-$ID.xml >/tmp/sd-$ID.test 2>&1 || \
    HOME=/tmp/sd-$ID.home timeout 900 python -m pytest -q -p no:cacheprovider --timeout=600 tests/$t -o junit_family=xunit2 --junitxml=/tmp/sd-$ID.xml >/tmp/sd-$ID.test 2>&1)
  F=$(python3 - <<P
import json, xml.etree.ElementTree as E
base=set(map(str,json.load(open('/opt/vp/BASELINE.json'))['stable']))
bad=[]
try:
  for c in E.parse('/tmp/sd-$ID.xml').iter('testcase'):
    if c.find('failure') is not None or c.find('error') is not None:
        n=c.get('name')
        if any(b.endswith('::'+n) or b==n for b in base): bad.append(n)
except Exception as e: bad.append(repr(e))
print(','.join(bad))
P
)
  [ -n "$F" ] && T="FAIL:$t:$F"
done
if [ -z "$NOCHECK" ]; then
  (cd /verif && VP_REPO=$W timeout 900 bin/check $PROP > /tmp/sd-$ID.check 2>&1); RC=$?
  V=$(grep -c "^VIOLATION property=$PROP" /tmp/sd-$ID.check)
fi
echo "$ID prop=$PROP demo_base=$R0 demo_bug=$R1 tests=$T check_rc=$RC viol=$V :: $(grep 'clause' /tmp/sd-$ID.check | head -1 | cut -c1-200)"
rm -rf "$W" /tmp/sd-$ID.home /tmp/sd-$ID.xml
