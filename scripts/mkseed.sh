#!/bin/bash
# mkseed.sh <seed-id>: validates /verif/seeded/<id> in a scratch copy: applies, builds, tests pass, demo 0 before / nonzero after; then runs checks of its property.
id=$1; d=/verif/seeded/$id
W=$(mktemp -d /tmp/seed.XXXX); cp -a /repo $W/repo
export PATH=/opt/veriftools/go1.27.3/bin:$PATH GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=readonly GOWORK=off
prop=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
( cd $W/repo && timeout 300 bash $d/demo.sh >/tmp/demo0.log 2>&1 ); a=$?
( cd $W/repo && git apply $d/patch.diff ) || echo "PATCH DOES NOT APPLY"
( cd $W/repo && go build ./... ) || echo "BUILD FAILS"
t=$( cd $W/repo && go test -vet=off -count=1 ./... 2>&1 | grep -c '^\(FAIL\|---\)' )
( cd $W/repo && timeout 300 bash $d/demo.sh >/tmp/demo1.log 2>&1 ); b=$?
[ -x /verif/bin/sa ] || bash /verif/build.sh >/dev/null
c=-; props=${2:-$prop}
mkdir -p $W/v; cp /verif/known_findings.json $W/v/ 2>/dev/null
for q in $props; do /verif/bin/sa -prop $q -repo $W/repo -verif $W/v > /tmp/seedcheck.$q.log 2>&1; c="$c $q=$?"; done
echo "$id prop=$prop demo_clean=$a (want 0) testfail=$t (want 0) demo_bug=$b (want !=0) check: $c (want 1)"
rm -rf $W
