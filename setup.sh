#!/bin/bash
cd "$(dirname "$0")" || exit 1
if [ -d /opt/veriftools/go1.27.3/bin ]; then export PATH=/opt/veriftools/go1.27.3/bin:$PATH; fi
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod
mkdir -p bin && cd govc && go build -o ../bin/govc .
