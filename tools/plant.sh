#!/bin/bash
# plant.sh ID...: confirm planted bugs in a scratch copy of /repo: the patch builds, passes the
# stable tests, and its demo passes without and fails with it. NOTEST=1 skips the tests.
S=/tmp/sr; R=/tmp/sr-vp
. /opt/vp/env.sh
[ -d $S ] || cp -a /repo $S
mkdir -p $R; cp /opt/vp/{env.sh,results.py,BASELINE.json} $R/
for f in build.sh test.sh llrl_tests.sh; do sed "s#/repo#$S#g; s#/opt/vp#$R#g;" /opt/vp/$f >$R/$f; done
cd $S || exit 2
git checkout -q -- . ; git fetch -q /repo HEAD && git reset -q --hard FETCH_HEAD
[ -z "$SKIPCLEAN" ] && { bash $R/build.sh >$R/build.log 2>&1 || { echo clean build fails; tail -5 $R/build.log; exit 2; }; }
for id in "$@"; do
  d=/verif/seeded/$id; t=$R/demo/$id; mkdir -p $t; cp -r $d/. $t/; rm -f $t/*.diff $t/meta.json
  [ -z "$SKIPCLEAN" ] && { timeout 300 bash $t/demo.sh >$t.clean 2>&1; echo "$id: demo clean rc=$?"; }
done
for id in "$@"; do
  d=/verif/seeded/$id; t=$R/demo/$id
  git apply $d/patch.diff || { echo "$id: patch does not apply"; continue; }
  if bash $R/build.sh >$R/build.log 2>&1; then
    timeout 300 bash $t/demo.sh >$t.bug 2>&1; echo "$id: demo bug rc=$?"
    [ -z "$NOTEST" ] && { bash $R/test.sh $R/out.json >/dev/null 2>&1; python3 - $id $R <<'P'
import json,sys
b=json.load(open('/opt/vp/BASELINE.json'))['stable']; o=json.load(open(sys.argv[2]+'/out.json'))
m=[x for x in b if x not in set(o['passed'])]
print(sys.argv[1]+':', 'tests pass' if not m else 'TESTS NOT PASSING %d: %s' % (len(m), m[:5]))
P
    }
  else echo "$id: build fails with the patch"; tail -20 $R/build.log; fi
  git checkout -q -- .
done
