#!/bin/bash
# usage: check.sh PROPERTY [simctl flags]; runs one property's check against /repo
here=$(cd "$(dirname "$0")/.." && pwd)
export HOME=${HOME:-/root}
if ! command -v go >/dev/null 2>&1 || [ -d /opt/veriftools/go1.27.3/bin ]; then
  export PATH=/opt/veriftools/go1.27.3/bin:/usr/local/bin:/usr/bin:/bin
fi
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GOWORK=off
export GOPATH=${GOPATH:-/root/go} GOCACHE=${GOCACHE:-/root/.cache/go-build}
export GOMODCACHE=${GOMODCACHE:-$GOPATH/pkg/mod}
export SIM_VERIF=${SIM_VERIF:-$here}
tmp=$(mktemp -d) || exit 2
trap 'rm -rf "$tmp"' EXIT
(cd "$here/tools" && go build -o "$tmp/simctl" ./simctl) || exit 2
cmd=check
case "$1" in setup|replay) cmd=$1; shift;; esac
prop=$1
[ $# -gt 0 ] && shift
"$tmp/simctl" $cmd "$@" ${prop:+"$prop"}
exit $?
