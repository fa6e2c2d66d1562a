#!/bin/bash
# mk.sh <id>: fills /verif/seeded/<id> (which holds patch.diff, main.rs, meta.json) with the demonstration kit
set -eu
v="$(cd "$(dirname "$0")/../.." && pwd)"
d="$v/seeded/$1"
if [ -f "$d/demo.cjs" ]; then
  cp "$v/tools/demo/demo-ts.sh" "$d/demo.sh"
  cp "$v/tools/demo/kit.cjs" "$v/sim/ts/num.cjs" "$d/"
  exit 0
fi
cp "$v/tools/demo/demo.sh" "$v/tools/demo/run.py" "$v/tools/demo/kit.rs" "$v/sim/src/fe.rs" "$v/sim/src/prng.rs" "$d/"
cd "$v"
tar --sort=name --mtime=@0 --owner=0 --group=0 --exclude=target -cf - shims vendor -C sim Cargo.lock | gzip -n > "$d/kit.tar.gz"
