#!/bin/bash
# trybug.sh ID...  confirm planted changes in a scratch copy: applies, builds, stable tests pass, demo 0 before / nonzero after
export RUSTUP_TOOLCHAIN=stable CARGO_NET_OFFLINE=true RUSTC_WRAPPER=
S=/tmp/bugscratch
rm -rf /tmp/bugscratch; mkdir -p $S; cp -a /repo $S/repo
for id in "$@"; do
  d=/verif/seeded/$id
  cp /verif/tools/demo_template.sh $d/demo.sh; chmod +x $d/demo.sh
  cd $S/repo; git checkout -q -- .
  bash $d/demo.sh >/tmp/bugscratch/o 2>&1; a=$?
  git apply $d/patch.diff || { echo "$id: patch does not apply"; continue; }
  cargo test --offline --quiet > $S/t 2>&1; t=$?
  timeout 250 bash $d/demo.sh >/tmp/bugscratch/o 2>&1; b=$?
  git checkout -q -- .
  echo "$id: demo clean=$a tests=$t demo patched=$b $([ $a = 0 ] && [ $t = 0 ] && [ $b != 0 ] && echo OK || { echo BAD; tail -n5 $S/o; tail -n5 $S/t; })"
done
rm -rf /tmp/bugscratch
