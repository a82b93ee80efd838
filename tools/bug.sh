#!/bin/bash
# Confirms planted bugs in scratch copies: tools/bug.sh [--nocheck] ID...
# (builds, passes tests, demo distinguishes it; then runs check of its property)
nocheck=; [ "$1" = --nocheck ] && { nocheck=1; shift; }
for id in "$@"; do
  src=/verif/seeded/$id; dir=$(mktemp -d /tmp/bug-XXXXXX)
  cp -a /repo "$dir/repo"; cp -r "$src" "$dir/demo"; rm -f "$dir"/demo/*.diff "$dir/demo/meta.json"
  cd "$dir/repo" || exit 1
  res="$id"
  timeout 300 bash "$dir/demo/demo.sh" >"$dir/demo.out" 2>&1; res="$res clean-demo=$?"
  git apply "$src/patch.diff" || { echo "$id: patch does not apply"; continue; }
  sed "s#/repo#$dir/repo#g; s#/opt/vp/build.sh#$dir/build.sh#g" /opt/vp/build.sh >"$dir/build.sh"
  sed "s#/repo#$dir/repo#g; s#/opt/vp/build.sh#$dir/build.sh#g" /opt/vp/test.sh >"$dir/test.sh"
  bash "$dir/build.sh" >"$dir/build.out" 2>&1; res="$res build=$?"
  bash "$dir/test.sh" "$dir/out.json" >"$dir/test.out" 2>&1
  res="$res tests=$(python3 -c "import json; d=json.load(open('$dir/out.json')); print(len(d['passed']), len(d['failed']), *d['failed'][:3])")"
  timeout 300 bash "$dir/demo/demo.sh" >"$dir/demo.out" 2>&1; res="$res demo=$?"
  prop=$(python3 -c "import json; print(json.load(open('$src/meta.json'))['property'])")
  if [ -z "$nocheck" ]; then
    for s in ${SEEDS:-1}; do
    VERIF_REPO=$dir/repo VERIF_SEED=$s timeout 900 /verif/check $prop >"$dir/check.out" 2>&1; res="$res check[$prop]=$?"
    done
    res="$res $(grep -m1 -B1 VIOLATION "$dir/check.out" | head -1 | cut -c1-150)"
  fi
  echo "$res"; tail -3 "$dir/demo.out"
  [ -n "$KEEP" ] && echo "kept $dir" || rm -rf "$dir"
done
