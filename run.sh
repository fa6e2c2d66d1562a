#!/bin/bash
# Builds the simulator from /repo's current tree and runs one check:  run.sh <ID>   (VERIF_SEED, VERIF_TIER)
#   run.sh build | run.sh replay <file> | run.sh <ID>
set -u
here="$(cd "$(dirname "$0")" && pwd)"
export VERIF_DIR="$here"
export CARGO_TARGET_DIR="${VERIF_TARGET:-$here/sim/target}"
export CARGO_NET_OFFLINE=true
cd "$here/sim" || exit 2
mkdir -p "$CARGO_TARGET_DIR"
build() {
  # cargo decides by file times; a tree that was copied or patched is recognised by content instead
  now=$(cd /repo/packages && find . -path ./target -prune -o -type f \( -name '*.rs' -o -name 'Cargo.toml' -o -name '*.md' \) -print0 \
        | LC_ALL=C sort -z | xargs -0 sha256sum | sha256sum | cut -d' ' -f1)
  stamp="$CARGO_TARGET_DIR/repo.sha256"
  if [ -f "$stamp" ] && [ "$(cat "$stamp")" != "$now" ]; then
    cargo clean --release --offline -p spartan -p spartan_wasm -p circuit_reader -p poseidon -p secq256k1 -p sim >/dev/null 2>&1
  fi
  rm -f "$CARGO_TARGET_DIR/repo.sha256"
  cargo build --release --offline >"$CARGO_TARGET_DIR/build.log" 2>&1 || { tail -40 "$CARGO_TARGET_DIR/build.log"; return 1; }
  echo "$now" >"$stamp"
}
build || { echo "build failed"; exit 3; }
bin="$CARGO_TARGET_DIR/release/sim"
case "${1:-}" in
  build) exit 0 ;;
  replay) exec "$bin" replay "$2" ;;
  *) exec "$bin" check "$1" ;;
esac
