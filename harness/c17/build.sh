#!/bin/bash
# Builds the check over sources with yield points, and a copy of it with the race detector.
ROOT=$1; BIN=$2
cd "$ROOT/harness" || exit 1
go run -modfile="$BIN/go.mod" ./c17/instr /repo "$BIN/ov" || exit 1
cp "$BIN/ov/sites.txt" "$BIN/sites.txt"
go build -modfile="$BIN/go.mod" -overlay "$BIN/ov/overlay.json" -o "$BIN/check" ./c17 || exit 1
go build -race -modfile="$BIN/go.mod" -overlay "$BIN/ov/overlay.json" -o "$BIN/race" ./c17 || exit 1
