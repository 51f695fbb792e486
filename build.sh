#!/bin/bash
# bash build.sh OUTDIR: instruments a copy of /repo's working tree and builds
# the simulator binary OUTDIR/harness from it. OUTDIR is a scratch directory.
set -e
export PATH=/opt/veriftools/go1.27.3/bin:$PATH GOTOOLCHAIN=local GOFLAGS=-mod=mod GOPROXY=off GOSUMDB=off
export GOMODCACHE=${GOMODCACHE:-/root/go/pkg/mod} GOCACHE=${GOCACHE:-/root/.cache/go-build} HOME=${HOME:-/root}
here=$(cd "$(dirname "$0")" && pwd)
out=$1
repo=${VERIF_REPO:-/repo}
mkdir -p "$out/src" "$out/sim"
# the Go sources of the module, without tests and examples
(cd "$repo" && find . -path ./.git -prune -o -path ./examples -prune -o \( -name '*.go' ! -name '*_test.go' -o -name go.mod -o -name go.sum \) -print0 | tar cf - --null -T -) | tar xf - -C "$out/src"
(cd "$here/sim/instr" && go build -o "$out/instr" .)
"$out/instr" "$out/src" "$out/sim"
cp "$out/src/go.mod" "$out/src/go.sum" "$out/sim/"
mkdir -p "$out/sim/zsim" && cp -r "$here/sim/zsim/." "$out/sim/zsim/"
cd "$out/sim"
go build -o "$out/harness" ./zsim/harness
