#!/bin/bash
# Undoes each repair of known-findings.txt in a scratch copy; its property's check has to report it.
W=$(mktemp -d)
trap 'rm -rf "$W"' EXIT
grep '^fixed:' /verif/known-findings.txt | sed 's/^fixed: property=\([A-Z0-9]*\) \([0-9a-f]*\) .*/\1 \2/' | while read p c; do
  [ -n "$1" ] && [ "$1" != "$c" ] && continue
  rm -rf "$W/r"; cp -a /repo "$W/r"; git -C "$W/r" checkout -q -- .
  if ! git -C "$W/r" diff "$c" "$c~1" | git -C "$W/r" apply -3 >/dev/null 2>&1; then
    echo "$p $c CONFLICT"; git -C "$W/r" diff --name-only --diff-filter=U; continue
  fi
  ( cd "$W/r" && go build ./... ) || { echo "$p $c BUILD"; continue; }
  out=$(cd /verif && VRUN_REPO="$W/r" ./run.sh $p quick 2>&1 </dev/null); rc=$?
  if [ $rc = 1 ] && grep -q "^VIOLATION property=$p " <<<"$out"; then r=CAUGHT; else r="MISSED rc=$rc"; fi
  echo "$p $c $r $(grep -m1 '^\[' <<<"$out" | cut -c1-120)"
done
