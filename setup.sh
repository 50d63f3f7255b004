#!/bin/bash
# Builds the symbolic executor from the committed sources and warms the build
# cache used by the native replay binaries.
set -e
cd "$(dirname "$0")"
. /opt/vp/env.sh >/dev/null 2>&1 || true
export GOSUMDB=off GOFLAGS=-mod=mod GOPROXY=off GOTOOLCHAIN=local
mkdir -p bin
(cd gosym && go build -o ../bin/gosym.new . && mv ../bin/gosym.new ../bin/gosym)
./bin/gosym -verif "$PWD" warm
