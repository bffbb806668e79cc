#!/bin/bash
# detect.sh [-a] ID...: apply each planted bug to /repo, run its property's check (-a: every check), undo
all=; [ "$1" = -a ] && { all=1; shift; }
cd /verif
for i in "$@"; do
  git -C /repo apply /verif/seeded/$i/patch.diff || continue
  p=$(python3 -c "import json;print(json.load(open('/verif/seeded/$i/meta.json'))['property'])")
  [ -n "$all" ] && p="C01 C02 C03 C04 C05 C06 C07 C08 C09 C10 C11 C12 C13 C14 C15 C16 C17 C20"
  for q in $p; do
    s=$(date +%s.%N)
    VERIF_SEED=1 VERIF_TIER=quick timeout 900 ./check.sh check --property $q --tier quick >/tmp/detect.out 2>&1; rc=$?
    e=$(date +%s.%N)
    printf '%s %s rc=%s %.1fs %s\n' $i $q $rc $(echo "$e - $s"|bc) "$(grep -m1 -A1 -E '^VIOLATION' /tmp/detect.out | tr '\n' ' ' | cut -c1-300)"
    [ $rc -gt 1 ] && tail -5 /tmp/detect.out
  done
  git -C /repo checkout -q -- .
done
