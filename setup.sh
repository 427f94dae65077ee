#!/bin/bash
cd "$(dirname "$0")/mc" || exit 1
. /opt/vp/env.sh 2>/dev/null
export GOFLAGS=-mod=mod GOPROXY=off GOSUMDB=off
mkdir -p ../.build
if ../rxcache.sh "$PWD/../.build/rx" ; then go build -overlay "$PWD/../.build/rx/overlay.json" -o ../.build/setup.bin . ; fi
go build -o ../.build/setup.bin . && rm -f ../.build/setup.bin
