#!/bin/bash
# check.sh ID: decide one property on /repo's working tree.
cd "$(dirname "$0")" || exit 1
. /opt/vp/env.sh >/dev/null 2>&1
export GOFLAGS=-mod=mod GOPROXY=off GOTOOLCHAIN=local
if [ ! -x bin/checker ] || [ -n "$(find checker -newer bin/checker -name '*.go' -print -quit)" ]; then
  mkdir -p bin
  (cd checker && go build -o ../bin/checker.$$ . && mv ../bin/checker.$$ ../bin/checker) || { echo "cannot build the checker"; exit 1; }
fi
exec ./bin/checker "$@"
