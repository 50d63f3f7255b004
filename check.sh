#!/bin/bash
# check.sh PROPERTY [quick|thorough]
cd "$(dirname "$0")"
. /opt/vp/env.sh >/dev/null 2>&1 || true
export GOSUMDB=off GOFLAGS=-mod=mod GOPROXY=off GOTOOLCHAIN=local
if [ ! -x bin/gosym ] || [ -n "$(find gosym -newer bin/gosym -name '*.go' -print -quit)" ]; then
  mkdir -p bin
  (cd gosym && go build -o "../bin/gosym.$$" . && mv "../bin/gosym.$$" ../bin/gosym) || { echo "cannot build the checker"; exit 2; }
fi
exec ./bin/gosym -verif "$PWD" check "$1" "${2:-$VERIF_TIER}"
