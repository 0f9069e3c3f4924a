#!/bin/bash
# Runs every check: all.sh [tier] [seed...]
cd "$(dirname "$0")/.."
tier=${1:-quick}; shift
for seed in ${*:-1}; do
  for c in checks/c[0-9][0-9].py; do
    id=$(basename $c .py | tr c C)
    out=$(python3 check.py $id --tier $tier --seed $seed 2>&1); rc=$?
    echo "$seed $id rc=$rc $(echo "$out" | tail -1)"
    [ $rc = 0 ] || echo "$out" | tail -12
  done
done
