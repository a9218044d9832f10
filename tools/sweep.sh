#!/bin/bash
# sweep.sh "IDS" FIRST LAST [quick args]: run checks with several seeds, print what is not quiet
for c in $1; do
  bad=0
  for s in $(seq $2 $3); do
    out=$(VERIF_SEED=$s python3 /verif/bin/check.py $c "${@:4}" 2>&1); rc=$?
    if [ $rc -ne 0 ]; then echo "$c seed $s rc=$rc: $(echo "$out" | grep -E "rejected:|VIOLATION|rror" | head -3)"; bad=1; fi
  done
  echo "$c seeds $2..$3 done: $(echo "$out" | tail -1)"
done
