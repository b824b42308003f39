#!/bin/bash
# Builds the checker and decides one property: check.sh <id> [quick|thorough]
cd "$(dirname "$0")" || exit 2
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
export GOSUMDB=off GOPROXY=off GOFLAGS=-mod=mod GOTOOLCHAIN=local VERIF_DIR="$PWD"
mkdir -p bin evidence
B="bin/gosym.$$"
(cd gosym && go build -o "../$B" .) || { rm -f "$B"; exit 2; }
trap 'rm -f "$B"' EXIT
"./$B" check "$1" "${2:-quick}"
