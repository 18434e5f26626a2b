#!/bin/bash
# builds the checker (offline, vendored dependencies)
set -e
. /opt/vp/env.sh 2>/dev/null || true
export GOTOOLCHAIN=local GOPROXY=off GOSUMDB=off GOWORK=off CGO_ENABLED=0 GOFLAGS=-mod=vendor
export GOCACHE=${VERIF_GOCACHE:-/verif/.cache/gocache}
mkdir -p /verif/bin "$GOCACHE"
cd "$(dirname "$0")/symgo"
go build -o /verif/bin/symgo .
