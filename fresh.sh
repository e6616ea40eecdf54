# sourced: cargo decides freshness by file times; a tree whose contents changed under older file times
# must still be rebuilt, so forget everything built from /repo when the contents differ from last time
now=$(cd /repo && find . -path ./target -prune -o -path ./.git -prune -o -type f -print0 | sort -z | xargs -0 sha256sum | sha256sum)
stamp=$CARGO_TARGET_DIR/.repo-stamp
if [ "$now" != "$(cat "$stamp" 2>/dev/null)" ]; then
  for d in "$CARGO_TARGET_DIR"/debug/.fingerprint; do
    for n in ethereum-consensus beacon-api-client spec-gen $(ls "$here/h"); do
      [ -d "$d" ] && find "$d" -maxdepth 1 -name "$n-*" -exec rm -r {} +
    done
  done
  echo "$now" >"$stamp"
fi
