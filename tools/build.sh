#!/bin/bash
# Instruments /repo's current tree and builds the simulator's test binary.
# usage: build.sh OUTDIR [REPO [race]]      (OUTDIR is made; /repo is only read)
set -e
out=$1; repo=${2:-/repo}; here=$(cd "$(dirname "$0")/.." && pwd)
export GOFLAGS=-mod=mod GOTOOLCHAIN=local GOPROXY=off GOWORK=off
race=(); irace=()
if [ "$3" = race ]; then
    # only the code under test (and what it calls) is watched, not the simulator
    irace=(-race)
    quiet='-race=false -d=checkptr=0'
    race=(-race "-gcflags=all=-d=checkptr=0" "-gcflags=powsim/...=$quiet" "-gcflags=powsim/shim/atomic=-d=checkptr=0" "-gcflags=github.com/sencha-dev/powkit/internal/verifharness=$quiet")
fi
mkdir -p "$out"
(cd "$here/sim" && go build -buildvcs=false -o "$out/instr" ./instr)

build() {
    "$out/instr" "$@" "${irace[@]}" -repo "$repo" -out "$out/o" -harness "$here/sim/harness" -sim "$here/sim" &&
    (cd "$repo" && go test -c -vet=off -buildvcs=false "${race[@]}" -modfile "$out/o/go.mod" -overlay "$out/o/overlay.json" -o "$out/sim.test" ./internal/verifharness)
}
# scheduling points inside statements as well; where that does not compile, at statements only
build > "$out/log" 2>&1 && cat "$out/log" || { rm -rf "$out/o"; build -plain; }
