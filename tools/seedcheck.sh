#!/bin/bash
# tools/seedcheck.sh [ID...]: apply each planted bug to /repo, run its property's quick check, undo; prints caught/missed
cd "$(dirname "$0")/.." || exit 2
[ $# -gt 0 ] || set -- $(ls seeded)
for id in "$@"; do
  p=$(python3 -c 'import json,sys;print(json.load(open(sys.argv[1]))["property"])' "seeded/$id/meta.json")
  git -C /repo apply "$PWD/seeded/$id/patch.diff" || { echo "$id $p: does not apply"; continue; }
  s=$(date +%s)
  VERIF_SEED=${VERIF_SEED:-1} VERIF_TIER=quick ./check.sh "$p" quick > "/tmp/seedcheck.$id.out" 2>&1; rc=$?
  git -C /repo checkout -q -- .
  case $rc in
    1) grep -q "^VIOLATION property=$p " "/tmp/seedcheck.$id.out" && r=caught || r="rc 1 without VIOLATION";;
    0) r=MISSED;;
    *) r="NO ANSWER (rc $rc)";;
  esac
  echo "$id $p: $r ($(($(date +%s) - s)) s)"
  grep -v "^$id " tools/seed_results.txt 2>/dev/null > /tmp/seed_results.$$; echo "$id $p $r" >> /tmp/seed_results.$$
  sort /tmp/seed_results.$$ > tools/seed_results.txt; rm -f /tmp/seed_results.$$
done
