#!/bin/bash
# build the checker
cd "$(dirname "$0")" || exit 1
. /opt/vp/env.sh >/dev/null 2>&1
export GOFLAGS=-mod=mod GOPROXY=off GOTOOLCHAIN=local
mkdir -p bin evidence
cd checker && go build -o ../bin/checker .
