#!/bin/bash
# Builds the checker from the committed sources (offline) and warms the Go build cache.
set -e
cd "$(dirname "$0")/../engine"
export GOTOOLCHAIN=local GOPROXY=off GOWORK=off CGO_ENABLED=1
mkdir -p ../bin ../evidence ../out
GOFLAGS=-mod=vendor go build -o ../bin/verif .
cd /repo && GOFLAGS=-mod=readonly go build ./internal/... ./pkg/... || true
GOFLAGS=-mod=readonly go test -count=1 -run '^$' ./internal/party ./internal/bls ./internal/polycommit ./internal/polyring ./pkg/core >/dev/null 2>&1 || true
