#!/bin/bash
# Applies each planted bug to /repo, runs the check of its property (or the checks given in
# CHECKS="C01 C02"), undoes it, and prints what was caught.   usage: run_seeded.sh [ID...]
cd "$(dirname "$0")/.." || exit 2
ids=("$@"); [ ${#ids[@]} -gt 0 ] || ids=($(ls seeded))
[ -z "$(git -C /repo status --porcelain)" ] || { echo "/repo is not clean" >&2; exit 2; }
trap 'git -C /repo checkout -q -- .' EXIT
for i in "${ids[@]}"; do
  p=$(python3 -c "import json,sys;print(json.load(open('seeded/$i/meta.json'))['property'])")
  git -C /repo apply "$PWD/seeded/$i/patch.diff" || { echo "$i does not apply"; continue; }
  for c in ${CHECKS:-$p}; do
    s=$(date +%s)
    out=$(./check "$c" quick 2>&1); rc=$?
    if [ $rc = 1 ] && grep -q "VIOLATION property=$c " <<<"$out"; then
      echo "$i $c CAUGHT ($(($(date +%s)-s)) s): $(grep -m1 '^scenario' <<<"$out" | cut -c1-200)"
    else
      echo "$i $c rc=$rc NOT CAUGHT ($(($(date +%s)-s)) s) $(tail -2 <<<"$out" | cut -c1-200)"
    fi
  done
  git -C /repo checkout -q -- .
done
