#!/bin/bash
# Builds the symbolic engine (offline, from the committed, vendored sources).
cd "$(dirname "$0")" || exit 2
export HOME="${HOME:-/root}"
export PATH=/opt/veriftools/go1.27.3/bin:/opt/veriftools/bin:$PATH
export GOTOOLCHAIN=local GOFLAGS=-mod=vendor GOPROXY=off GOWORK=off CGO_ENABLED=0
mkdir -p bin
if [ ! -x bin/symgo ] || [ -n "$(find engine -newer bin/symgo -type f -print -quit)" ]; then
  (cd engine && go build -o ../bin/symgo.$$ .) || exit 2
  mv -f bin/symgo.$$ bin/symgo
fi
