#!/bin/bash
# mutate.sh PROP FILE(relative to packages/) 'python-old' 'python-new'   -- run a check on a one-off textual mutant
set -e
M=/tmp/mrepo; mkdir -p $M; rm -rf /tmp/mrepo/packages; mkdir -p $M/packages
for p in /repo/packages/*/; do n=$(basename $p); mkdir -p $M/packages/$n; cp -a $p/src $M/packages/$n/; cp $p/package.json $M/packages/$n/; [ -e $p/node_modules ] && ln -sfn $p/node_modules $M/packages/$n/node_modules; done
ln -sfn /repo/node_modules $M/node_modules; cp /repo/package.json $M/ 2>/dev/null || true
python3 - "$M/packages/$2" "$3" "$4" <<'P'
import sys
f,o,n=sys.argv[1:4]; s=open(f).read()
c=s.count(o)
if c==0: print("PATTERN NOT FOUND"); sys.exit(3)
i=s.index(o); s=s[:i]+n+s[i+len(o):]
open(f,'w').write(s)
P
cd /verif; set +e
VP_REPO=$M VP_MUT=1 ./check $1 ${5:-quick} 2>&1 | cut -c1-300 | grep -vE "^  concretised" | head -8
