#!/bin/bash
# the same seeds twice, in different processes: every event and trace hash must agree
cd "$(dirname "$0")/.." || exit 2
./check.sh build || exit 2
rc=0
for c in $(seq -f 'C%02g' 1 23); do
  a=$(XSIM_ROOT=$PWD sim/target/debug/xsim digest $c ${VERIF_SEED:-1} 0 ${RUNS:-1500} | sha256sum)
  b=$(XSIM_ROOT=$PWD taskset -c 0 sim/target/debug/xsim digest $c ${VERIF_SEED:-1} 0 ${RUNS:-1500} | sha256sum)
  if [ "$a" = "$b" ]; then echo "$c same"; else echo "$c DIFFERS"; rc=1; fi
done
exit $rc
