#!/bin/bash
# Pre-builds the harness packages (optional: every check builds what it needs itself).
here=$(cd "$(dirname "$0")" && pwd)
export CARGO_NET_OFFLINE=true CARGO_TARGET_DIR=${VERIF_TARGET:-$here/target}
mkdir -p "$CARGO_TARGET_DIR"
. "$here/fresh.sh"
for p in "$here"/h/*/; do
  [ -f "$p/src/main.rs" ] && (cd "$p" && cargo build --offline --locked -q 2>&1 | grep -E '^error' -A5)
done
exit 0
