#!/bin/bash
# Builds the simulator for /repo's current working tree. Usage: build.sh OUTDIR
# Leaves OUTDIR/simrun.
set -e
here="$(cd "$(dirname "$0")" && pwd)"
out="$1"
repo="${VERIF_REPO:-/repo}"
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GO111MODULE=on GOWORK=off
export GOCACHE="${GOCACHE:-$here/.build/gocache}"
mkdir -p "$out" "$here/.build"
(cd "$here/instr" && go build -o "$out/instr" .)
"$out/instr" -repo "$repo" -world "$here/world" -out "$out/src"
(cd "$out/src" && go build -trimpath -o "$out/simrun" ./zzharness)
