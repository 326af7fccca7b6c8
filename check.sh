#!/bin/bash
# usage: check.sh PROPERTY   (VERIF_SEED, VERIF_TIER in the environment)
# Builds the verifier from the committed sources and decides one property on /repo's current tree.
cd "$(dirname "$0")" || exit 3
here=$(pwd)
if [ -d /opt/veriftools/go1.27.3/bin ]; then export PATH=/opt/veriftools/go1.27.3/bin:$PATH; fi
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod
bin=$here/bin/govc
mkdir -p "$here/bin"
(cd govc && go build -o "$bin" .) || { echo "govc does not build"; exit 3; }
exec "$bin" -repo /repo -verif "$here" -j "${VERIF_JOBS:-8}" check "$1"
