#!/bin/bash
# build the verifier; nothing else is kept
cd "$(dirname "$0")/tool" || exit 1
export HOME=${HOME:-/root} GOTOOLCHAIN=local GOPROXY=off GOWORK=off GOFLAGS=-mod=mod
mkdir -p ../bin && go build -o ../bin/vt .
