#!/bin/bash
# build.sh OUTDIR [lite]: builds the simulator from /repo's current working tree.
set -e
export HOME=/root
export PATH=/opt/veriftools/go1.27.3/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin
export GOPATH=/root/go GOMODCACHE=/root/go/pkg/mod GOCACHE=${GOCACHE:-/root/.cache/go-build}
export GOTOOLCHAIN=local GOFLAGS=-mod=mod GOPROXY=off CGO_ENABLED=1 CGO_CFLAGS="${CGO_CFLAGS:--O0}"
V=$(cd "$(dirname "$0")" && pwd)
REPO=${VERIF_REPO:-/repo}
OUT=$1
mkdir -p "$OUT/gen"
python3 "$V/tools/mkoverlay.py" "$REPO" "$V" "$OUT/gen"
cd "$V/sim"
tags=""; [ "$2" = lite ] && tags="-tags lite"
go build -modfile="$OUT/gen/go.mod" -overlay "$OUT/gen/overlay.json" $tags -o "$OUT/simbin" ./cmd/sim
