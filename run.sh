#!/bin/bash
# usage: run.sh <property id> [quick|thorough] [-case <prefix>]
# Builds the check from /repo's current working tree and runs it.
ROOT=$(cd "$(dirname "$0")" && pwd)
ID=$1; shift
TIER=${1:-${VERIF_TIER:-quick}}; [ $# -gt 0 ] && shift
export PATH=/opt/veriftools/go1.27.3/bin:$PATH GOPROXY=off GOTOOLCHAIN=local GOFLAGS=-mod=mod GOWORK=off CGO_ENABLED=${CGO_ENABLED:-1}
export VH_ROOT=$ROOT
BIN=$(mktemp -d) || exit 2
trap 'rm -rf "$BIN"' EXIT
pkg=$(echo "$ID" | tr 'A-Z' 'a-z')
cp "$ROOT/harness/go.mod" "$BIN/go.mod"; cp "$ROOT/harness/go.sum" "$BIN/go.sum"
if [ -x "$ROOT/harness/$pkg/build.sh" ]; then
  "$ROOT/harness/$pkg/build.sh" "$ROOT" "$BIN" || { echo "ERROR: build failed"; exit 2; }
else
  (cd "$ROOT/harness" && go build -modfile="$BIN/go.mod" -o "$BIN/check" "./$pkg") || { echo "ERROR: build failed"; exit 2; }
fi
"$BIN/check" "$TIER" "$@"
