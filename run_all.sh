#!/bin/bash
# every registered check, quick tier; prints one line each
cd "$(dirname "$0")"
for p in $(python3 -c 'import plan;print(*sorted(plan.PLAN))'); do
  [ $# -gt 0 ] && [[ " $* " != *" $p "* ]] && continue
  out=$(timeout 900 python3 check.py --prop $p --tier ${VERIF_TIER:-quick} 2>&1); rc=$?
  echo "$p rc=$rc $(echo "$out" | tail -1 | cut -c1-200)"
done
