#!/bin/bash
# Runs every claimed check (tier $1, default quick) one after another and lists what deserves a look.
cd "$(dirname "$0")/.." || exit 1
tier=${1:-quick}
mkdir -p out
for p in $(python3 -c "import json;print(*[c['property'] for c in json.load(open('MANIFEST.json'))['checks']])"); do
  s=$(date +%s)
  timeout 900 bin/verif check $p $tier > out/all-$p.log 2>&1; rc=$?
  t=$(( $(date +%s) - s ))
  note=""
  grep -q INCONCLUSIVE out/all-$p.log && note="$note inconclusive"
  grep -q VIOLATION out/all-$p.log && note="$note VIOLATION"
  grep -q "asserts=0 " out/all-$p.log && note="$note no-assertion"
  grep -q "cut=true" out/all-$p.log && note="$note cut"
  grep -Eq "(unk|trunc|unsup)=[1-9]" out/all-$p.log && note="$note unknown"
  echo "$p rc=$rc ${t}s$note"
done
