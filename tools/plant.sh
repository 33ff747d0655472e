#!/bin/bash
# plant.sh ID...: confirms planted bugs in a scratch copy of /repo at /tmp/plant/repo... The demo runs in the copy,
# with paths to /repo inside the demo replaced by the copy (DEMO_REPO is not available in the real run: cwd counts).
for id in "$@"; do
  d=/verif/seeded/$id
  rm -rf /tmp/plant; mkdir -p /tmp/plant; cp -a /repo /tmp/plant/repo; mkdir /tmp/plant/demo; cp $d/* /tmp/plant/demo; rm -f /tmp/plant/demo/patch.diff /tmp/plant/demo/meta.json
  cd /tmp/plant/repo
  git checkout -q -- . 
  bash /tmp/plant/demo/demo.sh > /tmp/plant/clean.log 2>&1; c=$?
  git apply $d/patch.diff || { echo "$id: patch does not apply"; continue; }
  export CARGO_NET_OFFLINE=true
  cargo test --workspace --no-fail-fast --offline --locked > /tmp/plant/test.log 2>&1; t=$?
  bash /tmp/plant/demo/demo.sh > /tmp/plant/bug.log 2>&1; b=$?
  echo "$id: demo clean=$c (0) buggy=$b (!=0) tests=$t (0) $(grep -c '\.\.\. ok' /tmp/plant/test.log) ok"
  [ $c != 0 ] && tail -5 /tmp/plant/clean.log; [ $b = 0 ] && tail -3 /tmp/plant/bug.log; [ $t != 0 ] && grep -E "FAILED|panicked|error" /tmp/plant/test.log | head
  [ $b != 0 ] && tail -2 /tmp/plant/bug.log | cut -c1-200
done
rm -rf /tmp/plant
