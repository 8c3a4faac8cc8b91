#!/bin/bash
# Runs the check of each planted bug's property against it (all bugs, or those given), in a scratch copy of /repo.
cd "$(dirname "$0")/.."
w=$(mktemp -d /tmp/trybugs-XXXXXX); trap 'rm -rf "$w"' EXIT
for d in ${@:-seeded/*/}; do
  d=${d%/}; id=$(basename $d); d=seeded/$id
  p=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
  rm -rf "$w/repo"; cp -a /repo "$w/repo"
  git -C "$w/repo" apply $PWD/$d/patch.diff || { echo "$id: does not apply"; continue; }
  s=$(date +%s)
  out=$(VERIF_REPO=$w/repo timeout 900 python3 bin/check.py $p 2>$w/err); rc=$?
  echo "$id $p rc=$rc $(($(date +%s)-s))s $out"
done
