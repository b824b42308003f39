#!/bin/bash
# Builds the checker once, so that the Go build cache is warm where it is kept.
cd "$(dirname "$0")" || exit 2
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
export GOSUMDB=off GOPROXY=off GOFLAGS=-mod=mod GOTOOLCHAIN=local
mkdir -p bin
cd gosym && go vet . && go build -o ../bin/gosym .
