#!/bin/bash
# bash tools/tscheck.sh PROP | replay FILE
# Builds the verifier and runs it on /repo's current tree.
cd "$(dirname "$0")/.." || exit 2
V=$(pwd)
export HOME=${HOME:-/root}
mkdir -p "$V/.build"
B=$V/.build/govc
if [ ! -x "$B" ] || [ -n "$(find govc -newer "$B" -name '*.go' -print -quit)" ]; then
    (cd govc && PATH=/usr/local/go/bin:$PATH GOTOOLCHAIN=local GOFLAGS=-mod=mod GOPROXY=off GONOSUMDB='*' GOWORK=off \
        go build -o "$B.$$" . && mv "$B.$$" "$B") || exit 2
fi

export PATH=$PATH:/root/.cargo/bin VERIF_ROOT=$V
if [ "$1" = replay ]; then exec "$B" replay "$2"; fi
exec "$B" tcheck "$1"
