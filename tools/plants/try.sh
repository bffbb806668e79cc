#!/bin/bash
# try.sh ID...: build, stable tests and demo on a patched copy, demo on the unpatched copy
S="$(cd "$(dirname "$0")/../../seeded" && pwd)"
for i in "$@"; do
  d=/tmp/planttry
  rm -rf /tmp/planttry; cp -a /repo /tmp/planttry
  base=$(cd /tmp/planttry && bash $S/$i/demo.sh >/tmp/planttry.out 2>&1; echo $?)
  (cd /tmp/planttry && git apply $S/$i/patch.diff) || { echo "$i: patch does not apply"; continue; }
  t=$(cd /tmp/planttry && cargo test --offline --lib 2>&1 | grep '^test result' )
  pat=$(cd /tmp/planttry && bash $S/$i/demo.sh >/tmp/planttry.out 2>&1; echo $?)
  echo "$i base=$base patched=$pat [$(tail -1 /tmp/planttry.out)] $t"
done
rm -rf /tmp/planttry
