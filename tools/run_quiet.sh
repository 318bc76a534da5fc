#!/bin/bash
# Applies behaviour-preserving rewrites of /repo, one at a time, and runs checks on each: every
# one has to stay quiet.   usage: run_quiet.sh DIFF [ID...]
cd "$(dirname "$0")/.." || exit 2
d=$(realpath "$1"); shift
ids=("$@"); [ ${#ids[@]} -gt 0 ] || ids=(C01 C02 C03 C04 C05 C06 C07 C08 C09 C10 C11 C12 C13 C14 C15 C16 C17 C18 C19)
[ -z "$(git -C /repo status --porcelain)" ] || { echo "/repo is not clean" >&2; exit 2; }
trap 'git -C /repo checkout -q -- .' EXIT
git -C /repo apply "$d" || exit 2
for c in "${ids[@]}"; do
  s=$(date +%s)
  out=$(./check "$c" quick 2>&1); rc=$?
  echo "$(basename "$d") $c rc=$rc ($(($(date +%s)-s)) s) $([ $rc = 0 ] || grep -E -m3 'VIOLATION|^scenario|error' <<<"$out" | cut -c1-400)"
done
