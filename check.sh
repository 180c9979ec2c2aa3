#!/bin/bash
# usage: check.sh ID | check.sh replay FILE | check.sh build | check.sh <vh arguments>
# Builds the checks against /repo's current working tree and runs one.
set -u
VERIF_DIR="$(cd "$(dirname "$0")" && pwd)"
export VERIF_DIR
export HOME="${HOME:-/root}"
export PATH="/opt/veriftools/go1.27.3/bin:/usr/local/go/bin:/usr/local/bin:$PATH"
export GOTOOLCHAIN=local GOPROXY=off GOSUMDB=off GOFLAGS= GO111MODULE=on GOWORK=off GOEXPERIMENT= GODEBUG=
OUT="$(mktemp -d)" || exit 2
trap '/bin/rm -rf "$OUT"' EXIT
cd "$VERIF_DIR/harness" || exit 2

build() { # build RACE
  if [ "$1" = race ]; then
    CGO_ENABLED=1 go build -race -mod=readonly -buildvcs=false -o "$OUT/vh" ./cmd/vh
  else
    CGO_ENABLED=0 go build -mod=readonly -buildvcs=false -o "$OUT/vh" ./cmd/vh
  fi
}

case "${1:-}" in
  build) build plain && build race || exit 2; exit 0 ;;
  C28) MODE=race ;;
  replay) if grep -q '"property": *"C28"' "${2:?}"; then MODE=race; else MODE=plain; fi ;;
  *) MODE=plain ;;
esac
build $MODE >"$OUT/log" 2>&1 || { cat "$OUT/log" >&2; echo "ERROR: the check does not build" >&2; exit 2; }
case "${1:-}" in
  C[0-9]*) set -- check "$@" ;;
esac
cd "$VERIF_DIR"
"$OUT/vh" "$@"
