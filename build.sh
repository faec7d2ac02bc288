#!/bin/bash
# Builds the analyser from /verif/tool (vendored, offline). Prints the binary's path.
set -e
export HOME=${HOME:-/root}
export PATH=/opt/veriftools/go1.27.3/bin:$PATH
export GOTOOLCHAIN=local GOPROXY=off GOWORK=off GOFLAGS=
export GOPATH=${GOPATH:-/root/go} GOCACHE=${GOCACHE:-/root/.cache/go-build}
here=$(cd "$(dirname "$0")" && pwd)
mkdir -p "$here/bin"
cd "$here/tool"
go build -mod=vendor -o "$here/bin/sa" . >&2
echo "$here/bin/sa"
