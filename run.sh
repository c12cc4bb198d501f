#!/bin/bash
# run.sh <property> [quick|thorough]      decide one property on /repo's tree
# run.sh --replay <file>                  replay a violation
# Builds the harness and zerosnake0/jzon from /repo's current working tree.
HERE=$(cd "$(dirname "$0")" && pwd)
V=/opt/veriftools/go1.23.12
unset GOROOT GOENV GOWORK GODEBUG GOGC GOMEMLIMIT GOTRACEBACK GORACE GOMAXPROCS
export PATH=$V/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin
export HOME=${HOME:-/root}
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GOWORK=off GO111MODULE=on CGO_ENABLED=1
export GOPATH=/root/go GOMODCACHE=/root/go/pkg/mod GOCACHE=${GOCACHE:-/root/.cache/go-build}
BIN=$(mktemp -d /tmp/jzv-bin.XXXXXX) || exit 2
trap 'rm -rf "$BIN"' EXIT
cd "$HERE/harness" || exit 2
build() { go build -o "$BIN/jzv" ./cmd/jzv || { echo "BUILD FAILED"; exit 2; }; }
buildrace() { go build -race -tags debug -o "$BIN/jzv-race" ./cmd/jzv || { echo "BUILD FAILED (race)"; exit 2; }; }
build
if [ "$1" = --build ]; then buildrace; exit 0; fi
if [ "$1" = --replay ]; then
  F=$(realpath "$2")
  P=$(sed -n 's/.*"property": *"\([^"]*\)".*/\1/p' "$F" | head -1)
  B=$BIN/jzv
  if "$BIN/jzv" list | grep -q "^$P .* true$"; then buildrace; B=$BIN/jzv-race; fi
  GORACE="halt_on_error=1 exitcode=66" "$B" replay -file "$F"
  exit $?
fi
PROP=$1
TIER=${2:-${VERIF_TIER:-quick}}
if "$BIN/jzv" list | grep -q "^$PROP .* true$"; then buildrace; fi
"$BIN/jzv" check -prop "$PROP" -tier "$TIER" -seed "${VERIF_SEED:-1}" -racebin "$BIN/jzv-race" \
  -evidence "$HERE/evidence" -replays "$HERE/replays" -scale "${VERIF_SCALE:-1}"
exit $?
