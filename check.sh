#!/bin/bash
# usage: check.sh <property id> [quick|thorough]
# Builds the analyser if necessary and decides one property from /repo's current source.
set -u
cd "$(dirname "$0")" || exit 2
VERIF=$(pwd)
export GOFLAGS=-mod=mod GOPROXY=off GOTOOLCHAIN=local GOSUMDB=off
BIN="$VERIF/bin/hv"
build() {
  mkdir -p "$VERIF/bin"
  (cd "$VERIF/analyzer" && go build -o "$BIN.$$" ./cmd/hv && mv -f "$BIN.$$" "$BIN")
}
if [ ! -x "$BIN" ] || [ -n "$(find "$VERIF/analyzer" \( -name '*.go' -o -name go.mod \) -newer "$BIN" -print -quit)" ]; then
  build || { echo "cannot build the analyser"; exit 2; }
fi
[ "${1:-}" = "--build" ] && exit 0
exec "$BIN" -repo /repo -verif "$VERIF" -property "$1" -tier "${2:-quick}"
