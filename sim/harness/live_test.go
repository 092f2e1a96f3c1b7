//go:build go1.25

package verifharness

import "powsim/rt"

// ---- C28: calls end, and background work does not pile up -------------------------------

// piledUp is by how much the goroutines left behind may grow once every client has been used.
// A client may keep workers, but not one more for every epoch or call.
const piledUp = 8

func init() {
	register(&Check{
		ID:      "C28",
		Classes: "leftover result panic hang",
		Gen:     gen28,
		PhaseEnd: func(r *Run, i int) {
			ps := r.procs[0]
			ph := &r.sc.Phases[i]
			if ps.p == nil || ps.p.Dead {
				return
			}
			n := r.s.Leftover(ps.p)
			first, _ := r.x.(*int)
			if ph.Tag == "used" {
				r.x = &n
			} else if first != nil && n > *first+piledUp {
				r.fail("leftover", "phase %d: %d goroutines are left behind, %d after the clients had first been used", i, n, *first)
			} else if first != nil && n == 0 {
				r.probe("no_goroutine_left")
			}
		},
	})
}

func gen28(r *rt.Rand, sc *Scenario) {
	sc.Pol = policy(r)
	p := one("p")
	if r.P(0.3) {
		genOther(r, sc, otherKinds)
		kinds := len(sc.Clients)
		sc.Phases = nil
		var warm TaskSpec
		for c := 0; c < kinds; c++ {
			for k := 0; k < 2; k++ {
				warm.Ops = append(warm.Ops, otherOp(r, c))
			}
		}
		sc.Phases = append(sc.Phases, Phase{Tag: "used", Tasks: []TaskSpec{warm}})
		for f := 0; f < 3; f++ {
			var ph Phase
			for k := 1 + r.Intn(3); k > 0; k-- {
				var t TaskSpec
				for o := 4 + r.Intn(6); o > 0; o-- {
					t.Ops = append(t.Ops, otherOp(r, r.Intn(kinds)))
				}
				ph.Tasks = append(ph.Tasks, t)
			}
			sc.Phases = append(sc.Phases, ph)
		}
		return
	}
	c := light(r, storage(r, 0.5))
	if r.P(0.4) {
		c.Caches = 1 + r.Intn(3)
	}
	if c.Caches > 4 {
		c.Caches = 4
	}
	sc.Clients = []ClientSpec{c}
	p.Clients = []int{0}
	sc.Procs = []ProcSpec{p}
	someErrors(r, sc, 0.35)
	if sc.Pol.PErr > 0 {
		sc.Pol.MaxErrs = 200
	}
	e, way := uint64(r.Intn(3)), r.Intn(5)
	next := func() uint64 {
		switch way {
		case 0: // along the chain
			e++
		case 1: // what has been prepared is never used
			e += 2
		case 2:
			e += uint64(r.Intn(3))
		case 3: // anywhere
			e = uint64(r.Intn(14))
		case 4: // back and forth
			e ^= 9
			if r.P(0.4) {
				e += 2
			}
		}
		return e
	}
	sc.seq(r, e)
	sc.Phases[0].Tag = "used"
	for f := 3 + r.Intn(2); f > 0; f-- {
		var ph Phase
		for k := 1 + r.Intn(3); k > 0; k-- {
			var t TaskSpec
			for o := 3 + r.Intn(4); o > 0; o-- {
				t.Ops = append(t.Ops, call(r, sc, 0, 0, next()))
			}
			ph.Tasks = append(ph.Tasks, t)
		}
		ph.GC = r.P(0.3)
		sc.Phases = append(sc.Phases, ph)
	}
}
