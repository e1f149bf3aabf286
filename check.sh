#!/bin/bash
# check.sh PROPERTY: builds the verifier from /verif/govc and decides the property on /repo's working tree.
cd "$(dirname "$0")" || exit 1
V=$(pwd)
[ -d /opt/veriftools/go1.27.3/bin ] && export PATH=/opt/veriftools/go1.27.3/bin:$PATH GOROOT=/opt/veriftools/go1.27.3
export HOME=${HOME:-/root} GOPATH=${GOPATH:-/root/go} GOTOOLCHAIN=local GOPROXY=off GOSUMDB=off GOWORK=off
mkdir -p bin evidence
(cd govc && GOFLAGS=-mod=mod go build -o "$V/bin/govc" .) || { echo "cannot build the verifier"; exit 1; }
[ "$1" = "--build" ] && exit 0
exec "$V/bin/govc" -repo /repo -verif "$V" check "$1"
