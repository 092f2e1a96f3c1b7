//go:build go1.25

package verifharness

import (
	"fmt"

	"powsim/rt"
)

// The checks of shared use: the algorithms without a DAG, callers' buffers, and results.

func otherOp(r *rt.Rand, slot int) Op {
	e := uint64(r.Intn(6))
	if r.P(0.15) {
		e = rt.Pick(r, []uint64{20, 70, 75, 90})
	}
	hash := uint64(r.Intn(4))
	if r.P(0.25) {
		hash += 8 * uint64(1+r.Intn(4))
	}
	return Op{K: "call", C: slot, E: e, Nonce: uint64(r.Intn(3)), Hash: hash, V: r.Intn(9), M: uint64(r.Intn(48))}
}

func genOther(r *rt.Rand, sc *Scenario, kinds []string) {
	n := 1 + r.Intn(3)
	p := one("p")
	k := rt.Pick(r, kinds)
	for i := 0; i < n; i++ {
		if i > 0 && r.P(0.4) {
			k = rt.Pick(r, kinds)
		}
		sc.Clients = append(sc.Clients, ClientSpec{Kind: k})
		p.Clients = append(p.Clients, i)
	}
	sc.Procs = []ProcSpec{p}
	for f := 1 + r.Intn(2); f > 0; f-- {
		var ph Phase
		tasks := 2 + r.Intn(4)
		if r.P(0.2) {
			tasks = 1 // a history
		}
		for k := tasks; k > 0; k-- {
			var t TaskSpec
			o := 1 + r.Intn(4)
			if tasks == 1 {
				o += 4
			}
			for ; o > 0; o-- {
				t.Ops = append(t.Ops, otherOp(r, r.Intn(n)))
			}
			ph.Tasks = append(ph.Tasks, t)
		}
		sc.Phases = append(sc.Phases, ph)
	}
}

func init() {
	register(&Check{
		ID:      "C15",
		Classes: "result panic hang",
		Gen: func(r *rt.Rand, sc *Scenario) {
			sc.Pol = policy(r)
			if r.P(0.2) {
				gcs(sc, 0.02, 2)
			}
			genOther(r, sc, otherKinds)
		},
	})

	register(&Check{
		ID:      "C16",
		Classes: "buffer shared overwritten scribbled",
		Gen: func(r *rt.Rand, sc *Scenario) {
			sc.Pol = policy(r)
			if r.P(0.5) {
				genOther(r, sc, otherKinds)
				return
			}
			n := 1 + r.Intn(2)
			p := one("p")
			for i := 0; i < n; i++ {
				c := client(r, storage(r, 0.3))
				if i > 0 && r.P(0.5) {
					c = sc.Clients[0]
				}
				sc.Clients = append(sc.Clients, c)
				p.Clients = append(p.Clients, i)
			}
			sc.Procs = []ProcSpec{p}
			base, span := uint64(r.Intn(3)), 1+r.Intn(3)
			for f := 1 + r.Intn(2); f > 0; f-- {
				var ph Phase
				for k := 1 + r.Intn(4); k > 0; k-- {
					c := r.Intn(n)
					ph.Tasks = append(ph.Tasks, ops(r, sc, c, c, 1+r.Intn(3), base, span))
				}
				sc.Phases = append(sc.Phases, ph)
			}
		},
		Setup: func(r *Run) {
			r.useBufs()
			r.onCall = append(r.onCall, func(c *Call) {
				if c.Wrong != "" && r.scribbled {
					r.fail("scribbled", "%s: after callers had written to their own results, %s", c.Proc, c.Wrong)
				}
			})
		},
		PhaseEnd: func(r *Run, i int) { r.checkKept() },
	})
}

var _ = fmt.Sprint
