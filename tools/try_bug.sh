#!/bin/bash
# try_bug.sh ID [PROPERTY...]: applies seeded/ID in a scratch copy (/tmp/bug/repo, already configured), builds, runs the
# stable tests and the demonstration with and without the patch, then the named checks (default: the bug's property).
id=$1; shift
V="$(cd "$(dirname "$0")/.." && pwd)"; R=/tmp/bug/repo; d=$V/seeded/$id
git -C $R fetch -q /repo HEAD && git -C $R checkout -q -f FETCH_HEAD || exit 9
props="${*:-$(python3 -c "import json,sys;print(json.load(open('$d/meta.json'))['property'])")}"
if [ -z "$SKIP_DEMO" ]; then
  ninja -C $R/_build >/dev/null || { echo "$id: base build failed"; exit 9; }
  (cd $R && timeout 300 bash "$d/demo.sh" >/tmp/bug/demo0.log 2>&1); echo "$id demo on base: $?"
fi
git -C $R apply "$d/patch.diff" || { echo "$id: patch does not apply"; exit 9; }
if [ -z "$SKIP_DEMO" ]; then
  ninja -C $R/_build 2>&1 | tail -3 | grep -i error && { echo "$id: build failed"; git -C $R checkout -q -- .; exit 9; }
  for t in mp4_test bitio/bitio_test endian/endian_test time/time_test track/track_test; do
    (cd $R/_build/test && timeout 120 ./$t >/tmp/bug/test.log 2>&1) || echo "$id TEST FAILS: $t"
  done
  (cd $R && timeout 300 bash "$d/demo.sh" >/tmp/bug/demo1.log 2>&1); echo "$id demo on patched: $?  $(tail -1 /tmp/bug/demo1.log)"
fi
[ -n "$SKIP_CHECK" ] || for p in $props; do
  SIM_REPO=$R SIM_BUILD=/tmp/bug/simbuild bash $V/check.sh $p ${TIER:-quick} >/tmp/bug/check.log 2>&1; rc=$?
  echo "$id check $p: rc=$rc $(grep -m1 VIOLATION /tmp/bug/check.log)"
done
git -C $R checkout -q -- .
