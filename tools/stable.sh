#!/bin/bash
# stable.sh: build and run the repository's stable tests on a scratch copy of /repo's HEAD
S=/tmp/sr; R=/tmp/sr-vp
NOTEST=1 SKIPCLEAN=1 bash "$(dirname "$0")"/plant.sh
bash $R/build.sh >$R/build.log 2>&1 || { echo build fails; tail -5 $R/build.log; exit 2; }
bash $R/test.sh $R/out.json >/dev/null 2>&1
python3 - $R <<'P'
import json,sys
b=json.load(open('/opt/vp/BASELINE.json'))['stable']; o=json.load(open(sys.argv[1]+'/out.json'))
m=[x for x in b if x not in set(o['passed'])]
print('tests pass' if not m else 'TESTS NOT PASSING %d: %s' % (len(m), m[:5]))
P
