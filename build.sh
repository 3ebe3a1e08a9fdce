#!/bin/bash
# build.sh OUTDIR GROUP [race|norace]: instruments /repo's current tree and builds checks/GROUP against it.
set -eu
here="$(cd "$(dirname "$0")" && pwd)"
out="$1"; group="$2"; mode="${3:-race}"
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GOSUMDB=off GOWORK=off
cd "$here"
mkdir -p "$out"
if [ -n "${VERIF_REPO:-}" ]; then # development only: another tree than /repo
  sed "s#=> /repo#=> $VERIF_REPO#" go.mod > "$out/go.mod"
  cp go.sum "$out/go.sum"
  export GOFLAGS="-mod=mod -modfile=$out/go.mod"
fi
if [ ! -x "$out/instr" ]; then
  go build -trimpath -o "$out/instr" ./cmd/instr
fi
if [ ! -f "$out/overlay.json" ]; then
  pkgs=$(go list -deps "./checks/$group" | grep '^github.com/axgrid/axutils' || true)
  if [ -n "$pkgs" ]; then
    "$out/instr" -out "$out" $pkgs
  else
    echo '{"Replace":{}}' > "$out/overlay.json"
  fi
fi
if [ "$mode" = race ]; then
  go build -race -overlay "$out/overlay.json" -gcflags='verif/vrt/...=-race=false -l' -o "$out/check-race" "./checks/$group"
else
  go build -overlay "$out/overlay.json" -o "$out/check-norace" "./checks/$group"
fi
