#!/bin/bash
# run.sh PROPERTY TIER | run.sh setup | run.sh replay FILE | run.sh govc ARGS...
# Builds the verifier from /verif/govc and runs it on /repo's working tree.
V="$(cd "$(dirname "$0")" && pwd)"
R="${REPO:-/repo}"
export HOME="${HOME:-/root}"
G=/opt/veriftools/go1.26.10
[ -x $G/bin/go ] || G="$(go env GOROOT)"
export PATH=$G/bin:/opt/veriftools/bin:$PATH GOROOT=$G
export GOPATH=${GOPATH:-/root/go} GOMODCACHE=${GOMODCACHE:-/root/go/pkg/mod} GOCACHE=${GOCACHE:-/root/.cache/go-build}
export GO111MODULE=on GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GOWORK=off
mkdir -p "$V/evidence" "$V/.build" || exit 2
B="$V/.build/govc"
(cd "$V/govc" && go build -o "$B" .) || { echo "govc does not build" >&2; exit 2; }
cd "$R" || exit 2
case "$1" in
setup) exec "$B" list -repo "$R" -verif "$V" ;;
replay) exec "$B" replay -repo "$R" -verif "$V" -file "$2" ;;
govc) shift; exec "$B" "$@" ;;
*) exec "$B" check -repo "$R" -verif "$V" -prop "$1" -tier "${2:-quick}" ;;
esac
