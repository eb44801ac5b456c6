#!/bin/bash
# ver2.sh ID... : verify seeds of $SEEDS in a scratch clone of /repo
export GOTOOLCHAIN=local GOFLAGS=-mod=mod GOPROXY=off
W=$(mktemp -d); trap 'rm -rf "$W"' EXIT
git clone -q /repo $W/r; cd $W/r
for id in "$@"; do
  S=${SEEDS:-/verif/seeded}/$id
  bash $S/demo.sh >/tmp/seeds/$id.clean 2>&1; c=$?
  git apply $S/patch.diff || { echo "$id NOAPPLY"; continue; }
  go build ./... ; b=$?
  go test -count=1 -vet=off ./geojson ./wkt . >/tmp/seeds/$id.tests 2>&1; t=$?
  bash $S/demo.sh >/tmp/seeds/$id.bad 2>&1; x=$?
  git checkout -q -- .
  echo "$id clean=$c build=$b tests=$t patched=$x $([ $c = 0 ] && [ $b = 0 ] && [ $x != 0 ] && [ $t = 0 ] && echo OK || echo BAD)"
done
