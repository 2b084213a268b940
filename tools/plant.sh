#!/bin/bash
# plant.sh <seed-id>: confirm a planted bug in a scratch copy: applies, builds, stable tests pass, demo 0/nonzero.
S=/verif/seeded/$1
W=/tmp/plant/repo-$1
mkdir -p /tmp/plant
rm -rf "/tmp/plant/repo-$1"
cp -a /repo "$W" && rm -rf "$W/target/test-tmp"
cd "$W" && git checkout -q -- . 
sed "s#/repo#$W#g" /opt/vp/env.sh > /tmp/plant/env-$1.sh
( . /tmp/plant/env-$1.sh; cd "$W"
bash $S/demo.sh > /tmp/plant/$1.demo0 2>&1; echo "demo unchanged: $?"
git apply $S/patch.diff || { echo "does not apply"; exit; }
cargo test --workspace --all-targets --no-run --offline > /tmp/plant/$1.build 2>&1 || { echo "build failed"; exit; }
bash $S/demo.sh > /tmp/plant/$1.demo1 2>&1; echo "demo planted: $?"
if [ -z "$2" ]; then
export TMPDIR=$W/target/test-tmp; mkdir -p $TMPDIR
timeout -k 10 840 cargo test --workspace --no-fail-fast --offline -- --include-ignored --test-threads 8 > /tmp/plant/$1.test 2>&1
grep -h "^test result\|FAILED\|failed" /tmp/plant/$1.test | sort | uniq -c | head
fi )
rm -rf "/tmp/plant/repo-$1"
