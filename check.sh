#!/bin/bash
# usage: check.sh <package dir under h/> <property id> [quick|thorough]
# Builds the harness against /repo's current working tree and runs the property's monitors.
# exit 0 held on everything observed, 1 violation, 2 build failure, 3 nothing (enough) observed
pkg=$1; id=$2; tier=${3:-${VERIF_TIER:-quick}}
here=$(cd "$(dirname "$0")" && pwd)
export VERIF_DIR=$here VERIF_TIER=$tier CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never
export CARGO_TARGET_DIR=${VERIF_TARGET:-$here/target}
log=$(mktemp)
trap 'rm -f "$log"' EXIT
mkdir -p "$here/evidence" "$CARGO_TARGET_DIR"
. "$here/fresh.sh"
if ! (cd "$here/h/$pkg" && cargo build --offline --locked -q) >"$log" 2>&1; then
  grep -E '^error' -A8 "$log" | head -60
  echo "ERROR: harness $pkg did not build against /repo's working tree (no verdict on $id)"
  exit 2
fi
limit=840; [ "$tier" = thorough ] && limit=7200
timeout -k 10 $limit "$CARGO_TARGET_DIR/debug/$pkg" "$id"
rc=$?
case $rc in
  0|1) exit $rc ;;
  124|137) echo "ERROR: $id ran out of time (inconclusive)"; exit 4 ;;
  *) echo "ERROR: harness for $id ended with $rc (inconclusive)"; exit 3 ;;
esac
