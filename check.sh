#!/bin/bash
# check.sh PROPERTY quick|thorough     decides one property
# check.sh PROPERTY replay CASE PROBE  runs one replay input again
here=$(cd "$(dirname "$0")" && pwd)
export HOME=${HOME:-/root} GOPATH=/root/go GOMODCACHE=/root/go/pkg/mod GOCACHE=${GOCACHE:-/root/.cache/go-build}
export GOTOOLCHAIN=local GOPROXY=off GOSUMDB=off GOFLAGS=-mod=mod GOWORK=off CGO_ENABLED=0
export PATH=/usr/local/bin:/usr/local/go/bin:/usr/bin:/bin:$PATH
unset GOROOT
bin=$(mktemp -d /tmp/gover.XXXXXX) || exit 2
trap 'rm -rf "$bin"' EXIT
(cd "$here/gover" && go build -o "$bin/gover" .) || exit 2
case "$1" in setup) exit 0 ;; esac
case "$2" in
replay) "$bin/gover" replay -repo /repo -verif "$here" -prop "$1" "$3" "$4" ;;
*) "$bin/gover" check -repo /repo -verif "$here" -prop "$1" -tier "${2:-quick}" ;;
esac
