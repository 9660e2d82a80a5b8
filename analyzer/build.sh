#!/bin/bash
# builds the analyzer into /verif/bin/favecheck (offline)
set -e
D=$(cd "$(dirname "$0")" && pwd)
OUT=${1:-$D/../bin/favecheck}
mkdir -p "$(dirname "$OUT")"
export PATH=/opt/veriftools/go1.26.10/bin:$PATH HOME=${HOME:-/root} GOPATH=/root/go GOMODCACHE=/root/go/pkg/mod GOCACHE=/root/.cache/go-build
export GOFLAGS=-mod=mod GOPROXY=off GOWORK=off GOTOOLCHAIN=local GOSUMDB=off CGO_ENABLED=0
cd "$D" && go build -o "$OUT" .
