#!/bin/bash
# Runs the repository's own test vectors (the tests of its first commit) against the frozen reference in sim/ref.
# usage: refcheck.sh [REPO]     (a few minutes; nothing in REPO or /verif is changed)
set -e
repo=${1:-/repo}; here=$(cd "$(dirname "$0")/.." && pwd)
base=$(git -C "$repo" rev-list --max-parents=0 HEAD | tail -1)
t=$(mktemp -d); trap 'rm -rf "$t"' EXIT
mkdir -p "$t/base" "$t/m/powsim"
git -C "$repo" archive "$base" | tar x -C "$t/base"
cp -r "$here/sim/ref" "$t/m/powsim/ref"; cp "$here/sim/go.mod" "$t/m/powsim/"; cp "$here"/sim/go.sum "$t/m/powsim/" 2>/dev/null || true
cd "$t/m/powsim"
(cd "$t/base" && find . -name '*_test.go') | while read -r f; do
	case $f in *bitutil*) continue ;; esac
	sed 's#github.com/sencha-dev/powkit/#powsim/ref/#' "$t/base/$f" > "ref/$f"
done
mkdir -p ref/internal/common/testutil
sed 's#github.com/sencha-dev/powkit/#powsim/ref/#' "$t"/base/internal/common/testutil/*.go > ref/internal/common/testutil/t.go
echo 'package common
func DefaultDir(string) string { return "" }' > ref/internal/common/common.go
gen() { # package, function, config
	echo "package $1
import \"powsim/ref/internal/dag\"
func $2() *Client { return New(dag.Config{MixBytes: 128, CacheInitBytes: 1<<24, CacheRounds: 3, $3}) }" > "ref/$1/$2.go"
}
e='DatasetInitBytes: 1<<30, DatasetGrowthBytes: 1<<23, CacheGrowthBytes: 1<<17'
l='L1Enabled: true, L1CacheSize: 4096*4, L1CacheNumItems: 4096, DatasetParents: 512'
gen ethash NewEthereum "$e, DatasetParents: 256, EpochLength: 30000, SeedEpochLength: 30000"
gen ethash NewEthereumClassic "$e, DatasetParents: 256, EpochLength: 60000, SeedEpochLength: 30000"
gen kawpow NewRavencoin "$e, $l, EpochLength: 7500, SeedEpochLength: 7500"
gen firopow NewFiro "DatasetInitBytes: 1<<30+1<<29, DatasetGrowthBytes: 1<<23, CacheGrowthBytes: 1<<17, $l, EpochLength: 1300, SeedEpochLength: 1300"
sed 's/MixBytes: 128, //' -i ref/*/New*.go; sed 's/dag.Config{/dag.Config{MixBytes: 128, /' -i ref/*/New*.go
gen octopus NewConflux "DatasetInitBytes: 1<<32, DatasetGrowthBytes: 1<<24, CacheGrowthBytes: 1<<16, DatasetParents: 256, EpochLength: 1<<19, SeedEpochLength: 1<<19"
sed 's/MixBytes: 128/MixBytes: 256/' -i ref/octopus/NewConflux.go
GOFLAGS=-mod=mod GOPROXY=off GOTOOLCHAIN=local go test ./ref/...
