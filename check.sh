#!/bin/bash
# usage: check.sh PROPERTY [quick|thorough]
# Builds the analyzer from /verif/analyzer and runs it on /repo's current source.
# Exit 0: the property holds on everything analysed. Exit 1: VIOLATION line printed.
here=$(cd "$(dirname "$0")" && pwd)
id=$1
tier=${2:-${VERIF_TIER:-quick}}
repo=${VERIF_REPO:-/repo}
mkdir -p "$here/evidence"
tmp=$(mktemp -d) || exit 1
trap 'rm -rf "$tmp"' EXIT
fail() {
  cp "$tmp/log" "$here/evidence/$id.violation.txt" 2>/dev/null
  cat "$tmp/log"
  echo "VIOLATION property=$id replay=$here/evidence/$id.violation.txt"
  exit 1
}
export GOTOOLCHAIN=local GOPROXY=off GOWORK=off
if ! (cd "$here/analyzer" && GOFLAGS=-mod=vendor CGO_ENABLED=0 go build -o "$tmp/veriflow" .) >"$tmp/log" 2>&1; then
  fail
fi
"$tmp/veriflow" -prop "$id" -tier "$tier" -repo "$repo" -verif "$here" >"$tmp/log" 2>&1
rc=$?
if [ $rc -eq 0 ]; then
  cat "$tmp/log"
  exit 0
fi
if grep -q "^VIOLATION property=$id " "$tmp/log"; then
  cat "$tmp/log"
  exit 1
fi
fail
