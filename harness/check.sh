#!/bin/bash
# check.sh C01 : rebuilds the simulator from /repo's working tree, then decides one property.
here="$(cd "$(dirname "$0")" && pwd)"
mkdir -p /verif/out
log=/verif/out/build-$1-$$.log
if ! bash "$here/build.sh" >"$log" 2>&1; then
  cat "$log" >&2
  echo "HARNESS: build failed" >&2
  exit 2
fi
rm -f "$log"
exec /verif/target/x86_64-unknown-linux-gnu/release/driver check --prop "$@"
