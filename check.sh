#!/bin/bash
# check.sh <property> <tier>
here=$(cd "$(dirname "$0")" && pwd)
prop=$1 tier=${2:-quick}
export PATH=/opt/veriftools/go1.27.3/bin:$PATH
export GOTOOLCHAIN=local GOPROXY=off GOWORK=off
export HOME=${HOME:-/root} GOPATH=${GOPATH:-/root/go} GOCACHE=${GOCACHE:-/root/.cache/go-build}
if ! bin=$("$here/build.sh"); then
  echo "analyser does not build"
  echo "VIOLATION property=$prop replay=$here/tool"
  exit 1
fi
"$bin" -prop "$prop" -tier "$tier" -repo /repo -verif "$here" ${VERBOSE:+-v}
rc=$?
if [ $rc -ne 0 ] && [ $rc -ne 1 ]; then
  echo "analyser failed with exit code $rc"
  echo "VIOLATION property=$prop replay=$here/tool"
  exit 1
fi
exit $rc
