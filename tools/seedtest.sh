#!/bin/bash
# seedtest.sh ID...: confirm each planted change in a scratch copy: applies, builds, tests pass, demo discriminates.
# (development aid; no check uses it)
for id in "$@"; do
  d=/verif/seeded/$id
  echo "== $id"
  ( cd /repo && git diff --quiet ) || { echo "repo dirty"; exit 1; }
  t=$(mktemp -d /tmp/seeddemo.XXXXXX); cp -r $d/. $t/; rm -f $t/*.diff $t/meta.json
  ( cd /repo && bash /opt/vp/build.sh >/dev/null 2>&1; timeout 300 bash $t/demo.sh >$t/clean.log 2>&1; echo "  demo clean: $?" )
  git -C /repo apply $d/patch.diff || { echo "  does not apply"; continue; }
  ( cd /repo && bash /opt/vp/build.sh >$t/build.log 2>&1; echo "  build: $?"; bash /opt/vp/test.sh $t/o.json >/dev/null 2>&1
    python3 - $t/o.json <<'P'
import json,sys
b=json.load(open('/opt/vp/BASELINE.json')); o=json.load(open(sys.argv[1]))
def ids(x,k):
    v=x.get(k); return set(v if v and isinstance(v[0],str) else [y['id'] for y in v]) if v else set()
keys=list(b.keys())
st=set(b.get('stable') or b.get('stable_passing') or b.get('tests') or b.get('passed') or [])
p=set(o.get('passed') or [])
print('  stable missing:',len(st-p),'of',len(st), 'failed:', len(o.get('failed') or []))
P
    timeout 300 bash $t/demo.sh >$t/bug.log 2>&1; echo "  demo bug: $?"; tail -3 $t/bug.log | sed 's/^/    /' )
  git -C /repo checkout -q -- .
  rm -rf "$t"
done
