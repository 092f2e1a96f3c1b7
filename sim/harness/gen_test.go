//go:build go1.25

package verifharness

import (
	"fmt"
	"regexp"

	"powsim/ref"
	"powsim/rt"
)

func matches(re, s string) bool { return regexp.MustCompile(re).MatchString(s) }

const maxEpoch = 24 // scenarios stay below this epoch

// policy draws the knobs of a run without faults; checks add theirs.
func policy(r *rt.Rand) rt.Policy {
	gap, growth := rt.Pick(r, []int{1, 1, 2, 4, 16, 64, 400}), rt.Pick(r, []int{1, 2, 2, 3, 4})
	if growth == 1 && gap < 64 {
		growth = 2
	}
	var jump float64
	if r.P(0.08) {
		jump = rt.Pick(r, []float64{0.02, 0.1, 0.5})
	}
	return rt.Policy{
		PJump:     jump,
		Gap0:      gap,
		Growth:    growth,
		PSwitch:   rt.Pick(r, []float64{0.01, 0.05, 0.2, 0.5, 0.9}),
		POpSwitch: rt.Pick(r, []float64{0, 0.1, 0.3, 0.6, 0.9}),
		Strategy:  rt.Pick(r, []string{"uniform", "uniform", "uniform", "pct", "starve"}),
	}
}

var dagKinds = []string{"ethash", "ethash", "ethash", "octopus", "kawpow", "firopow"}

// params draws a small version of an algorithm. The choice is narrow, so that reference results are reused.
func params(r *rt.Rand, kind string) ref.Params {
	p := ref.Params{Kind: kind, Mix: 128, Rounds: 3, DatasetInit: 1 << 16, DatasetGrowth: 1 << 12,
		CacheInit: rt.Pick(r, []uint64{2048, 4096, 4096, 9216}), CacheGrowth: rt.Pick(r, []uint64{256, 1024}),
		Parents: 4, EpochLength: 8, SeedEpochLength: 8}
	switch kind {
	case "ethash":
		p.Parents = rt.Pick(r, []uint32{4, 16})
		if r.P(0.3) {
			p.EpochLength = 16 // as Ethereum Classic
		}
		p.L1 = r.P(0.15)
	case "octopus":
		p.Mix = 256
		p.DatasetInit = 1 << 17
	case "kawpow", "firopow":
		p.L1 = true
	}
	return p
}

// client draws a client of a DAG algorithm. dir is its storage directory; empty means memory only.
func client(r *rt.Rand, dir string, kinds ...string) ClientSpec {
	if len(kinds) == 0 {
		kinds = dagKinds
	}
	k := rt.Pick(r, kinds)
	name := map[string]string{"ethash": "ETH", "kawpow": "RVN", "firopow": "FIRO", "octopus": "CFX"}[k]
	p := params(r, k)
	name += fmt.Sprintf("-%x-%x-%x-%x-%v", p.CacheInit>>10, p.CacheGrowth>>8, p.Parents, p.EpochLength, p.L1) // different parameters are different coins
	return ClientSpec{Kind: k, Name: name, Rev: rt.Pick(r, []int{1, 23}), Dir: dir, Caches: rt.Pick(r, []int{1, 2, 2, 3, 3, 4}), Lock: r.P(0.2), P: p}
}

const dir1 = "/home/miner/.powcache"

func call(r *rt.Rand, sc *Scenario, slot int, spec int, epoch uint64) Op {
	n := sc.Clients[spec].P.EpochLength
	off := uint64(r.Intn(int(n)))
	if n > 64 {
		off = rt.Pick(r, []uint64{0, 1, n / 2, n - 1})
	}
	nonce := uint64(r.Intn(2))
	if r.P(0.12) {
		nonce = rt.Pick(r, []uint64{31, 33, 64, 1<<32 + 1, 1<<63 + 7})
	}
	hash := uint64(r.Intn(3))
	if r.P(0.1) {
		hash += 8 * uint64(1+r.Intn(4))
	}
	return Op{K: "call", C: slot, E: epoch, Off: off, Nonce: nonce, Hash: hash, M: uint64(r.Intn(64))}
}

func one(name string, clients ...int) ProcSpec {
	return ProcSpec{Name: name, Rand: 1, Clients: clients}
}

func init() {
	register(&Check{
		ID:      "C01",
		Classes: "result panic hang",
		Gen: func(r *rt.Rand, sc *Scenario) {
			sc.Pol = policy(r)
			if r.P(0.3) {
				sc.Pol.PGC, sc.Pol.MaxGC = 0.02, 3
			}
			n := 1 + r.Intn(3)
			p := one("p")
			for i := 0; i < n; i++ {
				d := ""
				if r.P(0.5) {
					d = dir1
				}
				if i > 0 && r.P(0.4) {
					sc.Clients = append(sc.Clients, sc.Clients[i-1]) // another client of the same coin
				} else {
					sc.Clients = append(sc.Clients, client(r, d))
				}
				p.Clients = append(p.Clients, i)
			}
			sc.Procs = []ProcSpec{p}
			base, span := uint64(r.Intn(4)), 1+r.Intn(4)
			phases := 1 + r.Intn(2)
			for f := 0; f < phases; f++ {
				var ph Phase
				for k := 2 + r.Intn(4); k > 0; k-- {
					var t TaskSpec
					for o := 1 + r.Intn(4); o > 0; o-- {
						c := r.Intn(n)
						t.Ops = append(t.Ops, call(r, sc, c, c, base+uint64(r.Intn(span))))
					}
					ph.Tasks = append(ph.Tasks, t)
				}
				sc.Phases = append(sc.Phases, ph)
			}
		},
	})
}
