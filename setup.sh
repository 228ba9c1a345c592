#!/bin/bash
# Builds the verifier from the committed files (offline).
set -e
cd "$(dirname "$0")/gover"
export GOFLAGS=-mod=mod GOPROXY=off GOSUMDB=off GOTOOLCHAIN=local
mkdir -p ../bin
go build -o ../bin/gover .
# warm the build cache for the drivers
cd "${GOVER_REPO:-/repo}" && go build ./... >/dev/null 2>&1 || true
