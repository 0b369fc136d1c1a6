#!/bin/bash
# Builds the harness once with and without the race detector, to fill the build cache and to fail early.
here=$(cd "$(dirname "$0")" && pwd)
export HOME=${HOME:-/root}
[ -x /opt/veriftools/go1.27.3/bin/go ] && PATH=/opt/veriftools/go1.27.3/bin:$PATH
export PATH GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod
work=$(mktemp -d /tmp/gotverif.XXXXXX) || exit 2
trap 'rm -rf "$work"' EXIT
export TMPDIR=$work
cp -r "$here/harness" "$work/src" || exit 2
cd "$work/src" || exit 2
go build -o "$work/h1" . && go build -race -o "$work/h2" . || exit 2
"$work/h1" -list
