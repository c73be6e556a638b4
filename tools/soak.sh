#!/bin/bash
# soak.sh DIR SEED0 SCALE PROPS...: many seeds from a copy of the committed work; prints what alarms.
D=$1; S=$2; K=$3; shift 3
for ((s=S; ; s++)); do
  for p in "$@"; do
    out=$(nice bash $D/run.sh $p --no-build --seed $s --scale $K 2>&1) || echo "$p seed $s: $(echo "$out" | tail -3)" >> $D/soak.log
  done
  echo "seed $s done $(date +%T)" >> $D/soak.log
done
