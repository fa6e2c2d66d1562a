#!/bin/bash
# try.sh <seeded-id> [check ids...]: runs checks against a scratch copy of /repo with that patch
# (scratch in /tmp/try: repo copy, simulator copy with its paths rewritten, one shared target directory)
set -u
v="$(cd "$(dirname "$0")/.." && pwd)"
id=$1; shift
mkdir -p /tmp/try/verif
rsync -a --delete --exclude target --exclude node_modules --exclude .git /repo/packages /tmp/try/repo/ 2>/dev/null || { mkdir -p /tmp/try/repo; cp -a /repo/packages /tmp/try/repo/; }
cp /repo/Cargo.* /repo/rust-toolchain /tmp/try/repo/ 2>/dev/null
(cd /tmp/try/repo && git init -q . 2>/dev/null; git apply --whitespace=nowarn "$v/seeded/$id/patch.diff") || { echo "patch does not apply"; exit 9; }
mkdir -p /tmp/try/verif/sim
for x in shims vendor; do cp -a "$v/$x" /tmp/try/verif/; done
cp -a "$v/sim/src" "$v/sim/.cargo" "$v/sim/Cargo.lock" /tmp/try/verif/sim/
cp "$v/known-findings.txt" /tmp/try/verif/; cp -a "$v/golden" /tmp/try/verif/ 2>/dev/null
sed 's#"/repo/#"/tmp/try/repo/#' "$v/sim/Cargo.toml" >/tmp/try/verif/sim/Cargo.toml
grep -rl '"/repo/' /tmp/try/verif/sim/src | xargs -r sed -i 's#"/repo/#"/tmp/try/repo/#g'
find /tmp/try/repo/packages -name '*.rs' | xargs touch
cd /tmp/try/verif/sim && CARGO_TARGET_DIR=/tmp/try/target cargo build --release --offline >/tmp/try/log 2>&1 || { tail -30 /tmp/try/log; exit 8; }
[ $# = 0 ] && set -- $(python3 -c "import json;print(json.load(open('$v/seeded/$id/meta.json'))['property'])")
for c in "$@"; do VERIF_CLIENT_REPO=/tmp/try/repo VERIF_DIR=/tmp/try/verif /tmp/try/target/release/sim check $c 2>&1 | tail -4 | cut -c1-400; done
