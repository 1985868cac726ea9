#!/bin/bash
# runseeded.sh [ID...]: runs each planted bug's own check against a scratch copy with the bug in it.
# CHECKS="C01 C02" runs these checks instead; SECS limits the search.
cd "$(dirname "$0")/.." || exit 2
[ $# -gt 0 ] || set -- $(ls seeded)
for id in "$@"; do
  tmp=$(mktemp -d)
  git clone -q /repo "$tmp/repo" && git -C "$tmp/repo" apply "$PWD/seeded/$id/patch.diff" || { echo "$id DOES NOT APPLY"; rm -rf -- "$tmp"; continue; }
  prop=$(python3 -c 'import json,sys;print(json.load(open(sys.argv[1]))["property"])' "seeded/$id/meta.json")
  for c in ${CHECKS:-$prop}; do
    s=$(date +%s)
    VERIF_REPO=$tmp/repo ./check.sh $c ${SECS:+-seconds $SECS} > "$tmp/out" 2>&1; rc=$?
    echo "$id $c rc=$rc $(( $(date +%s) - s ))s $(grep -m1 -A1 -v '^WARNING' "$tmp/out" | cut -c1-150 | tr '\n' ' ')"
    [ $rc = 2 ] && cat "$tmp/out"
    cp "$tmp/out" "/tmp/out.$id.$c"
  done
  rm -rf -- "$tmp"
done
