#!/bin/bash
# seedtest.sh ID... : confirms planted bugs in a scratch copy: builds, stable tests pass, demo passes without and fails with the patch; then runs the property's check
S=/tmp/seed
V=$(cd "$(dirname "$0")/.." && pwd)
R=${SIM_REPO:-/repo}
mkdir -p $S
if [ ! -d $S/repo ]; then cp -a $R $S/repo; find $S/repo/_build -delete 2>/dev/null; fi
cp -a /opt/vp/. $S/vp/ 2>/dev/null || { mkdir -p $S/vp; cp -a /opt/vp/. $S/vp/; }
sed -i "s#/repo#$S/repo#g; s#/opt/vp#$S/vp#g" $S/vp/*.sh $S/vp/*.py
for id in "$@"; do
  d=$V/seeded/$id
  git -C $S/repo fetch -q $R HEAD && git -C $S/repo checkout -q -f FETCH_HEAD
  ( cd $S/repo && timeout 300 bash $d/demo.sh >$S/$id.clean.log 2>&1 ); c=$?
  git -C $S/repo apply $d/patch.diff || { echo "$id: patch does not apply"; continue; }
  ( cd $S/repo && timeout 300 bash $d/demo.sh >$S/$id.demo.log 2>&1 ); b=$?
  t=skipped
  if [ -z "$NOTEST" ]; then
    bash $S/vp/test.sh $S/$id.json >$S/$id.test.log 2>&1
    t=$(python3 - $S/$id.json <<'P'
import json,sys
b=json.load(open('/opt/vp/BASELINE.json'))['stable']
try: p=set(json.load(open(sys.argv[1]))['passed'])
except Exception as e: p=set()
m=[x for x in b if x not in p]
print('ok' if not m else 'FAIL %d: %s'%(len(m),m[:4]))
P
)
  fi
  prop=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
  k=skipped
  if [ -z "$NOCHECK" ]; then
    SIM_REPO=$S/repo SIM_NOEV=1 python3 $V/check.py --prop $prop --time ${TIME:-25} >$S/$id.check.log 2>&1; k=$?
  fi
  git -C $S/repo checkout -q -f .
  echo "$id: demo clean=$c bug=$b tests=$t check($prop)=$k"
  [ -n "$NOCHECK" ] || grep -h -m1 -B2 VIOLATION $S/$id.check.log 2>/dev/null | cut -c1-300
done
