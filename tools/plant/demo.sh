#!/bin/bash
# Runs demo_test.go against the source tree in the working directory.
d=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d) || exit 2
trap 'rm -rf "$t"' EXIT
printf '{"Replace":{"%s/zzdemo/util_test.go":"%s/util_test.go","%s/zzdemo/demo_test.go":"%s/demo_test.go"}}' "$PWD" "$d" "$PWD" "$d" >"$t/o.json"
race=
[ -e "$d/race" ] && race=-race
go test -vet=off $race -overlay "$t/o.json" -c -o "$t/demo.test" ./zzdemo || exit 1
export REPO="$PWD"
cd "$t" && timeout 200 ./demo.test -test.run '^TestDemo$' -test.count=1
