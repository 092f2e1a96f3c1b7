//go:build go1.25

package verifharness

import (
	"bytes"
	"fmt"
	"reflect"
	"runtime/debug"

	"github.com/sencha-dev/powkit/internal/dag"

	"powsim/ref"
	"powsim/rt"
)

// C18: the shipped coins at their real sizes. The contents of the caches are not generated (they would take
// minutes each); everything else runs as it does for users.

var shippedParams = map[string]ref.Params{
	"ETH":  {Kind: "ethash", Mix: 128, DatasetInit: 1 << 30, DatasetGrowth: 1 << 23, CacheInit: 1 << 24, CacheGrowth: 1 << 17, Parents: 256, EpochLength: 30000, SeedEpochLength: 30000, Rounds: 3},
	"ETC":  {Kind: "ethash", Mix: 128, DatasetInit: 1 << 30, DatasetGrowth: 1 << 23, CacheInit: 1 << 24, CacheGrowth: 1 << 17, Parents: 256, EpochLength: 60000, SeedEpochLength: 30000, Rounds: 3},
	"RVN":  {Kind: "kawpow", Mix: 128, DatasetInit: 1 << 30, DatasetGrowth: 1 << 23, CacheInit: 1 << 24, CacheGrowth: 1 << 17, Parents: 512, EpochLength: 7500, SeedEpochLength: 7500, Rounds: 3, L1: true},
	"FIRO": {Kind: "firopow", Mix: 128, DatasetInit: 1<<30 + 1<<29, DatasetGrowth: 1 << 23, CacheInit: 1 << 24, CacheGrowth: 1 << 17, Parents: 512, EpochLength: 1300, SeedEpochLength: 1300, Rounds: 3, L1: true},
	"CFX":  {Kind: "octopus", Mix: 256, DatasetInit: 1 << 32, DatasetGrowth: 1 << 24, CacheInit: 1 << 24, CacheGrowth: 1 << 16, Parents: 256, EpochLength: 1 << 19, SeedEpochLength: 1 << 19, Rounds: 3},
}

type model18 struct {
	skipped map[uint64]bool
	small   bool
}

func init() {
	register(&Check{
		ID:      "C18",
		Classes: "panic hang result size error",
		Gen: func(r *rt.Rand, sc *Scenario) {
			sc.Pol = policy(r)
			sc.Pol.Gap0, sc.Pol.Growth = 64, 4
			c := shipped(r)
			c.NoDisk = true
			real := r.P(0.6)
			base := uint64(r.Intn(4))
			switch x := r.Float(); {
			case x < 0.5:
				base = 2040 + uint64(r.Intn(12))
			case x < 0.65:
				base = uint64(r.Intn(2040))
			case x < 0.75:
				base = 2052 + uint64(r.Intn(2000))
			case x < 0.85:
				base = 4090 + uint64(r.Intn(10))
			}
			if real {
				c.Small = false
				c.P = shippedParams[c.Ctor]
			} else {
				c.P.CacheGrowth = 64
				c.P.DatasetGrowth = 1 << 10
			}
			sc.Clients = []ClientSpec{c}
			sc.Procs = []ProcSpec{one("p", 0)}
			n := 1 + r.Intn(4)
			if real && base > 4000 {
				n = 1 + r.Intn(2)
			}
			step := rt.Pick(r, []uint64{1, 1, 1, 2, 3, 0})
			e := base
			if r.P(0.3) {
				// one task per few blocks, at the same time
				var ph Phase
				for k := 0; k < 2+r.Intn(2); k++ {
					var t TaskSpec
					for o := 1 + r.Intn(2); o > 0; o-- {
						t.Ops = append(t.Ops, call(r, sc, 0, 0, e+uint64(r.Intn(2))))
					}
					ph.Tasks = append(ph.Tasks, t)
				}
				sc.Phases = append(sc.Phases, ph)
				e++
			}
			for ; n > 0; n-- {
				sc.seq(r, e)
				if step == 0 {
					e += uint64(r.Intn(5))
				} else {
					e += step
				}
			}
			sc.X = r.U64() >> 1
		},
		Setup: func(r *Run) {
			m := &model18{skipped: map[uint64]bool{}, small: r.sc.Clients[0].Small}
			r.x = m
			p := r.sc.Clients[0].P
			if !m.small {
				debug.SetGCPercent(50)
				debug.SetMemoryLimit(3 << 30)
				rt.SkipFn = func(name string, args []interface{}) bool {
					if name != "dag.generateCache" || len(args) < 3 {
						return false
					}
					dest, ok := args[1].([]uint32)
					epoch, ok2 := args[2].(uint64)
					if !ok || !ok2 {
						return false
					}
					m.skipped[epoch] = true
					if w := sizeOf(p, ref.CacheSize, "cacheSizes", epoch); uint64(len(dest))*4 != w {
						r.fail("size", "the cache of epoch %d has %d bytes, want %d", epoch, len(dest)*4, w)
					}
					return true
				}
			}
		},
		PhaseEnd: func(r *Run, i int) {
			m := r.x.(*model18)
			if i > 0 || m.small {
				return
			}
			// the sizes around a random place, as the client looks them up
			ps := r.procs[0]
			if ps.p == nil || ps.p.Dead || len(ps.clients) == 0 || ps.clients[0] == nil {
				return
			}
			g := rt.NewRand(r.sc.X)
			at := uint64(g.Intn(4160))
			if g.P(0.4) {
				at = 2030 + uint64(g.Intn(20))
			}
			r.s.NoPreempt, r.s.FaultsOff = true, true
			r.s.Spawn(ps.p, "sizes", func() { r.sizes(ps.clients[0], at, 24) })
			r.s.RunPhase()
			r.crashes()
			r.s.NoPreempt, r.s.FaultsOff = false, false
		},
	})
}

// sizes compares the sizes that a client uses with the formulas.
func (r *Run) sizes(lc *liveClient, at, n uint64) {
	for _, name := range []string{"CacheSize", "DatasetSize"} {
		f := reflect.ValueOf(lc.dag).MethodByName(name)
		if !f.IsValid() {
			continue
		}
		g, ok := f.Interface().(func(uint64) uint64)
		if !ok {
			continue
		}
		want, k := ref.CacheSize, "cacheSizes"
		if name == "DatasetSize" {
			want, k = ref.DatasetSize, "datasetSizes"
		}
		for e := at; e < at+n; e++ {
			if have, w := g(e), sizeOf(lc.spec.P, want, k, e); have != w {
				r.fail("size", "%s: %s(%d) is %d, want %d", lc.spec.Ctor, name, e, have, w)
				return
			}
		}
	}
}

// shippedResult judges a result that was computed from a cache of zeros.
func (r *Run) shippedResult(lc *liveClient, c *Call, height uint64, op Op, mix, digest []byte, err error) {
	if err != nil {
		c.Wrong = "error: " + err.Error()
		return
	}
	m, _ := r.x.(*model18)
	if m == nil || !m.skipped[op.E] || lc.dag.StorageDir != "" {
		return
	}
	r.probe("real_size_result")
	wm, wd := zeroWant(lc.spec.P, op.Hash, height, op.Nonce)
	switch {
	case !bytes.Equal(digest, wd):
		c.Wrong = fmt.Sprintf("digest %x, want %x", digest, wd)
	case !bytes.Equal(mix, wm):
		c.Wrong = fmt.Sprintf("mix %x, want %x", mix, wm)
	}
}

var zeroWants = map[wantKey]wantVal{}

func zeroWant(p ref.Params, hash, height, nonce uint64) ([]byte, []byte) {
	k := wantKey{p, hash, height, nonce}
	v, ok := zeroWants[k]
	if !ok {
		v.mix, v.digest = ref.ComputeZero(p, hashBytes(hash, 32), height, nonce)
		zeroWants[k] = v
	}
	return v.mix, v.digest
}

var _ *dag.DAG
