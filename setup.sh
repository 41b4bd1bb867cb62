#!/bin/bash
# Builds the analyzer once, to fail early when the toolchain is not there.
here=$(cd "$(dirname "$0")" && pwd)
export GOTOOLCHAIN=local GOPROXY=off GOWORK=off GOFLAGS=-mod=vendor CGO_ENABLED=0
cd "$here/analyzer" && go build -o /dev/null .
