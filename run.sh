#!/bin/bash
# Usage: run.sh PROPERTY   (tier from VERIF_TIER, default quick)
# Builds the analyser from /verif/checker and decides one property from /repo's
# current working tree.
set -u
here=$(cd "$(dirname "$0")" && pwd)
export HOME=${HOME:-/root}
build() {
  mkdir -p "$here/bin" || return 1
  (cd "$here/checker" && env -u GOROOT GOWORK=off GOFLAGS=-mod=mod GOPROXY=off GOTOOLCHAIN=local CGO_ENABLED=0 go build -o "$here/bin/zsv.$$" .) || return 1
  mv -f "$here/bin/zsv.$$" "$here/bin/zsv"
}
if [ "${1:-}" = setup ]; then build; exit $?; fi
build || { echo "cannot build the analyser"; exit 2; }
exec "$here/bin/zsv" -prop "$1" -tier "${VERIF_TIER:-quick}" -repo /repo -verif "$here"
