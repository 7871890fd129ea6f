#!/bin/bash
# catch.sh [IDS...]: applies each planted bug to /repo, runs its property's check, undoes it.
cd "$(dirname "$0")/.." || exit 1
[ -z "$(git -C /repo status --porcelain)" ] || { echo "/repo is not clean"; exit 1; }
[ $# -gt 0 ] || set -- $(ls seeded)
trap 'git -C /repo checkout -q -- .' EXIT
for b in "$@"; do
  p=$(python3 -c "import json,sys;print(json.load(open('seeded/$b/meta.json'))['property'])")
  git -C /repo apply "$PWD/seeded/$b/patch.diff" || { echo "$b: does not apply"; continue; }
  s=$(date +%s); out=$(./run.sh "$p" 2>&1); rc=$?
  git -C /repo checkout -q -- .
  echo "$b $p rc=$rc $(( $(date +%s)-s ))s $(grep -c '^VIOLATION' <<<"$out") :: $(grep -v '^VIOLATION' <<<"$out" | head -1 | cut -c1-160)"
done
