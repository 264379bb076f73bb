#!/bin/bash
# Warms the Go build cache (normal and race builds of the runner and the harness).
set -u
here="$(cd "$(dirname "$0")" && pwd)"
export HOME="${HOME:-/root}" GOTOOLCHAIN=local GOPROXY=off GOWORK=off GOFLAGS= GOMODCACHE=/root/go/pkg/mod
cd "$here/harness" && go build -o /dev/null ./cmd/vrun
