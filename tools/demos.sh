#!/bin/bash
# demos.sh <id>...: each demonstration must succeed on /repo and fail with the patch (scratch copy)
v="$(cd "$(dirname "$0")/.." && pwd)"
for i in "$@"; do
  "$v/tools/demo/mk.sh" $i
  rsync -a --delete --exclude target --exclude node_modules --exclude .git /repo/packages /tmp/demor/
  cp /repo/Cargo.* /repo/rust-toolchain /tmp/demor/ 2>/dev/null
  (cd /repo && bash "$v/seeded/$i/demo.sh" >/tmp/demo1.log 2>&1); a=$?
  (cd /tmp/demor && { [ -d .git ] || git init -q .; } && git apply --whitespace=nowarn "$v/seeded/$i/patch.diff" && bash "$v/seeded/$i/demo.sh" >/tmp/demo2.log 2>&1); b=$?
  echo "$i: unchanged $a patched $b  $(grep -a -m1 -A1 'main.rs\|error' /tmp/demo2.log | tr '\n' ' ' | cut -c1-200)"
  [ $a = 0 ] || tail -5 /tmp/demo1.log
done
