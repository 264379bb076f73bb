#!/bin/bash
# usage: run.sh PROPERTY [quick|thorough]   (or run.sh -replay FILE)
set -u
here="$(cd "$(dirname "$0")" && pwd)"
export HOME="${HOME:-/root}" GOTOOLCHAIN=local GOPROXY=off GOWORK=off GOFLAGS= GOMODCACHE=/root/go/pkg/mod
bin="$(mktemp -d /tmp/vrunbin-XXXXXX)"
trap 'rm -rf "$bin"' EXIT
cd "$here/harness" || exit 2
go build -o "$bin/vrun" ./cmd/vrun || exit 2
if [ "$1" = "-replay" ]; then
	"$bin/vrun" -replay "$2"
	exit $?
fi
"$bin/vrun" -prop "$1" -tier "${2:-${VERIF_TIER:-quick}}" "${@:3}"
