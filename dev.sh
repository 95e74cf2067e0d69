#!/bin/bash
# dev helper: dev.sh UNIT [verus args]; extracts from ${SRC:-/repo/src} and runs verus
u=$1; shift
mkdir -p /verif/build
V=/verif/vx/target/debug/vx
E=""; [ -f /verif/build/expanded.rs ] && E="--expanded /verif/build/expanded.rs"
$V pin $E --src /repo/src --pins /tmp/pins.$u.tsv /verif/units/$u.vx || exit 3
$V gen $E --src ${SRC:-/repo/src} --unit /verif/units/$u.vx --pins /tmp/pins.$u.tsv --out /verif/build/$u.rs --report /verif/build/$u.json || exit 3
grep -E '"lost":\["|"missing":"' /verif/build/$u.json | cut -c1-300
verus /verif/build/$u.rs --num-threads 8 --rlimit 30 --triggers-mode silent "$@" 2>&1 | head -${LINES_MAX:-70}
