#!/bin/bash
# check.sh <property> [quick|thorough]: rebuild from /repo and run one check.
here=$(cd "$(dirname "$0")" && pwd)
cd "$here" || exit 2
log=$(mktemp)
if ! bash ./build.sh >"$log" 2>&1; then
  cat "$log"; rm -f "$log"
  echo "build of the harness against /repo failed" >&2
  exit 2
fi
case "$1" in
C19 | C20 | C21)
  if ! bash ./wasm.sh >"$log" 2>&1; then
    cat "$log"; rm -f "$log"
    echo "build of the package from /repo failed" >&2
    exit 2
  fi ;;
esac
if [ "$1" = C19 ] && ! node js/schema.js target/pkg/bq2cst.d.ts target/schema.json; then
  echo "the type declarations could not be read" >&2
  exit 2
fi
rm -f "$log"
export VERIF_DIR=$here
if [ "$1" = C21 ]; then
  "$here/target/release/mc" dump "${2:-${VERIF_TIER:-quick}}" >target/setups.jsonl || exit 2
  exec node js/hist.js target/pkg/bq2cst.js "$here" "${2:-${VERIF_TIER:-quick}}"
fi
exec "$here/target/release/mc" "$1" "${2:-${VERIF_TIER:-quick}}"
