#!/bin/bash
# Builds the verifier and warms the Go build cache.
set -e
cd "$(dirname "$0")"
export PATH="$PATH:/usr/local/bin:/usr/bin:/bin" GOTOOLCHAIN=local GOPROXY=off GOWORK=off HOME="${HOME:-/root}"
mkdir -p bin evidence
(cd gvc && GOFLAGS= go build -o ../bin/gvc .)
(cd /repo && GOFLAGS=-mod=readonly go build ./... >/dev/null 2>&1) || true
