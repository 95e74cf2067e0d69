#!/bin/bash
# sweep.sh OUT ID...  : run the check of each seeded bug's property on /repo with the bug applied, one line per bug
out=$1; shift
[ -z "$(git -C /repo status --porcelain)" ] || { echo "/repo not clean"; exit 1; }
for id in "$@"; do
  p=$(python3 -c "import json,sys;print(json.load(open('/verif/seeded/$id/meta.json'))['property'])")
  git -C /repo apply /verif/seeded/$id/patch.diff || { echo "$id NOAPPLY" >> $out; continue; }
  s=$(date +%s)
  python3 check.py $p > /tmp/sweep_one.log 2>&1; rc=$?
  git -C /repo checkout -q -- .
  v=$(grep -h '^VIOLATION' /tmp/sweep_one.log | head -1)
  k=missed; [ $rc = 1 ] && { case "$v" in *no-failing-input-found) k=obligation;; *) k=input;; esac; }
  nf=$(grep -c '^failed obligation' /tmp/sweep_one.log); nu=$(grep -c '^undecided' /tmp/sweep_one.log)
  echo "$id $p rc=$rc $k failed=$nf undecided=$nu t=$(( $(date +%s)-s ))s | $(grep -h '^failed obligation\|^undecided' /tmp/sweep_one.log | head -1 | cut -c1-220)" >> $out
done
