//go:build go1.25

package verifharness

import (
	"fmt"
	"strings"
	"weak"

	"powsim/fs"
	"powsim/ref"
	"powsim/rt"
)

// The checks of the client's bookkeeping: which epochs are generated, prepared, retained, dropped and released.

// genGC turns on garbage collection at random points.
func gcs(sc *Scenario, p float64, max int) { sc.Pol.PGC, sc.Pol.MaxGC = p, max }

// shipped draws a shipped coin's client with small sizes.
func shipped(r *rt.Rand) ClientSpec {
	ctor := rt.Pick(r, []string{"ETH", "ETC", "RVN", "FIRO", "CFX"})
	k := map[string]string{"ETH": "ethash", "ETC": "ethash", "RVN": "kawpow", "FIRO": "firopow", "CFX": "octopus"}[ctor]
	p := params(r, k)
	p.L1 = k == "kawpow" || k == "firopow"
	p.EpochLength = map[string]uint64{"ETH": 30000, "ETC": 60000, "RVN": 7500, "FIRO": 1300, "CFX": 1 << 19}[ctor]
	p.SeedEpochLength = p.EpochLength
	if ctor == "ETC" {
		p.SeedEpochLength = 30000
	} else if k == "ethash" && p.SeedEpochLength != p.EpochLength {
		p.SeedEpochLength = p.EpochLength
	}
	return ClientSpec{Kind: k, Ctor: ctor, Small: true, Caches: 3, P: p, NoDisk: r.P(0.4)}
}

// someErrors makes some storage operations of some runs fail.
func someErrors(r *rt.Rand, sc *Scenario, p float64) {
	if !r.P(p) {
		return
	}
	sc.Pol.PErr, sc.Pol.MaxErrs = rt.Pick(r, []float64{0.02, 0.1, 0.4, 1}), rt.Pick(r, []int{1, 3, 50})
	sc.Pol.ErrKinds = rt.Pick(r, []string{allKinds, "mmap", "mlock", "rename", "truncate,write,fallocate", "open", "close", "msync,fsync", "create,mkdir"})
}

// allKinds are the operations that fail, but for munmap: what cannot be unmapped stays.
const allKinds = "open,create,mkdir,truncate,fallocate,mmap,mlock,msync,fsync,close,rename,link,remove,stat,read,write,readdir,chmod,flock"

// light draws a client that is cheap to run.
func light(r *rt.Rand, dir string) ClientSpec {
	if r.P(0.8) {
		return client(r, dir, "ethash")
	}
	return client(r, dir)
}

func storage(r *rt.Rand, p float64) string {
	if r.P(p) {
		return dir1
	}
	return ""
}

// phaseGens are the epochs of the main caches generated in a phase.
func (r *Run) phaseGens(i int) []Gen {
	var out []Gen
	for _, g := range r.gens {
		if g.Phase == i && !g.L1 {
			out = append(out, g)
		}
	}
	return out
}

func (r *Run) openedIn(i int, path string) bool {
	for _, o := range r.opens {
		if o.Phase == i && o.Path == path {
			return true
		}
	}
	return false
}

// requests lists the epochs called for in a phase.
func (ph *Phase) requests() []uint64 {
	var out []uint64
	for _, t := range ph.Tasks {
		for _, o := range t.Ops {
			if o.K == "call" || o.K == "" {
				out = append(out, o.E)
			}
		}
	}
	return out
}

func genList(g []Gen) string {
	var s []string
	for _, x := range g {
		s = append(s, fmt.Sprint(x.Epoch))
	}
	return strings.Join(s, ",")
}

func (s *Scenario) seq(r *rt.Rand, epoch uint64) *Phase {
	s.Phases = append(s.Phases, Phase{Tasks: []TaskSpec{{Ops: []Op{call(r, s, 0, 0, epoch)}}}})
	return &s.Phases[len(s.Phases)-1]
}

// ---- C02 ------------------------------------------------------------------------

func init() {
	register(&Check{
		ID:      "C02",
		Classes: "regen result panic hang",
		Gen: func(r *rt.Rand, sc *Scenario) {
			sc.Pol = policy(r)
			if r.P(0.2) {
				gcs(sc, 0.02, 2)
			}
			e := uint64(r.Intn(4))
			set := []uint64{e}
			switch r.Intn(4) {
			case 1:
				set = append(set, e+1)
			case 2:
				set = append(set, e+2+uint64(r.Intn(3)))
			case 3:
				set = append(set, e+2+uint64(r.Intn(2)), e+5+uint64(r.Intn(3)))
			}
			c := light(r, storage(r, 0.3))
			if r.P(0.15) {
				c = shipped(r)
			}
			if c.Caches < len(set) {
				c.Caches = len(set)
			}
			if n := int(set[len(set)-1]-set[0]) + 2; c.Dir != "" && c.Caches < n {
				c.Caches = n // otherwise the file of the one may be removed, as too old, before it is loaded
			}
			if c.Ctor != "" {
				c.Caches = 3
				set = set[:1]
			}
			sc.Clients = []ClientSpec{c}
			sc.Procs = []ProcSpec{one("p", 0)}
			if r.P(0.2) {
				sc.Procs[0].Clients = []int{0, 0}
			}
			someErrors(r, sc, 0.15)
			n := 1 + r.Intn(2)
			for f := 0; f < n; f++ {
				var ph Phase
				for k := 2 + r.Intn(4); k > 0; k-- {
					var t TaskSpec
					for o := 1 + r.Intn(3); o > 0; o-- {
						t.Ops = append(t.Ops, call(r, sc, r.Intn(len(sc.Procs[0].Clients)), 0, set[r.Intn(len(set))]))
					}
					ph.Tasks = append(ph.Tasks, t)
				}
				sc.Phases = append(sc.Phases, ph)
			}
		},
		End: func(r *Run) {
			type key struct {
				dag   uintptr
				epoch uint64
			}
			n, by := map[key]int{}, map[key]string{}
			most := 1
			if r.sc.Pol.PErr > 0 {
				most = 2 // once for a file that could not be stored, once for memory, one right after the other
			}
			asked := map[uint64]bool{}
			for i := range r.sc.Phases {
				for _, e := range r.sc.Phases[i].requests() {
					asked[e] = true
				}
			}
			for _, g := range r.gens {
				if g.L1 || !asked[g.Epoch] {
					continue
				}
				k := key{g.dagID, g.Epoch}
				if n[k]++; n[k] == 1 {
					by[k] = g.Task
				}
				if n[k] == most+1 || by[k] != g.Task && n[k] == 2 {
					r.fail("regen", "epoch %d was generated twice by one client (the second time in %s) although it was retained", g.Epoch, g.Task)
				}
			}
		},
	})
}

// ---- C03 ------------------------------------------------------------------------

// sim03 follows a client with sequential requests.
func init() {
	register(&Check{
		ID:      "C03",
		Classes: "regen unprepared extra foreground result panic hang",
		Gen: func(r *rt.Rand, sc *Scenario) {
			sc.Pol = policy(r)
			c := light(r, storage(r, 0.35))
			if r.P(0.2) {
				c = shipped(r)
			}
			sc.Clients = []ClientSpec{c}
			sc.Procs = []ProcSpec{one("p", 0)}
			someErrors(r, sc, 0.12)
			e := uint64(r.Intn(4))
			switch r.Intn(4) {
			case 0: // up the chain, in steps
				for n := 2 + r.Intn(5); n > 0; n-- {
					sc.seq(r, e)
					if r.P(0.8) {
						e += uint64(1 + r.Intn(3)*r.Intn(2))
					}
				}
			case 1: // anywhere
				for n := 2 + r.Intn(5); n > 0; n-- {
					sc.seq(r, uint64(r.Intn(9)))
				}
			case 2: // one task goes up the chain without waiting, others follow
				var t TaskSpec
				for n := 2 + r.Intn(3); n > 0; n-- {
					for k := 1 + r.Intn(2); k > 0; k-- {
						t.Ops = append(t.Ops, call(r, sc, 0, 0, e))
					}
					e++
				}
				sc.X = 1
				sc.Phases = append(sc.Phases, Phase{Tasks: []TaskSpec{t}})
				sc.seq(r, e)
				sc.seq(r, e+1)
			case 3: // several at once, then on from the highest
				var ph Phase
				top := uint64(0)
				for k := 2 + r.Intn(3); k > 0; k-- {
					x := uint64(r.Intn(6))
					top = max(top, x)
					ph.Tasks = append(ph.Tasks, TaskSpec{Ops: []Op{call(r, sc, 0, 0, x)}})
				}
				sc.Phases = append(sc.Phases, ph)
				sc.seq(r, top+1)
				if r.P(0.5) {
					sc.seq(r, uint64(r.Intn(int(top)+1)))
				}
				sc.seq(r, top+2)
			}
		},
		PhaseEnd: func(r *Run, i int) {
			ph := &r.sc.Phases[i]
			req := ph.requests()
			if len(req) == 0 {
				return
			}
			st, _ := r.x.(*model03)
			if st == nil {
				st = &model03{made: map[uint64]bool{}}
				r.x = st
			}
			c := &r.sc.Clients[0]
			gens := r.phaseGens(i)
			old, had := st.top, st.any
			asked, allowed := map[uint64]bool{}, map[uint64]bool{}
			for _, e := range req {
				asked[e], allowed[e], allowed[e+1] = true, true, true
				if !st.any || e > st.top {
					st.any, st.top = true, e
				}
			}
			count := map[uint64]int{}
			for _, g := range gens {
				st.made[g.Epoch] = true
				count[g.Epoch]++
				if !allowed[g.Epoch] {
					r.fail("extra", "epoch %d was generated although only %v had been requested in phase %d", g.Epoch, req, i)
				}
			}
			if had && count[old+1] > 0 {
				r.fail("regen", "phase %d: epoch %d was prepared in the background but generated again (generated: %s)", i, old+1, genList(gens))
			}
			if st.top != old || !had {
				// the epoch after the highest must be ready now
				f := st.top + 1
				if !st.made[f] && !(c.Dir != "" && !c.NoDisk && r.openedIn(i, c.path(f, false))) {
					r.fail("unprepared", "phase %d: after requests for %v the epoch %d was not prepared", i, req, f)
				}
			}
			for _, k := range r.calls {
				if g := r.others(k); k.Phase == i && g != nil {
					r.fail("foreground", "phase %d: a call for epoch %d generated epoch %d itself, not in the background", i, k.Op.E, g.Epoch)
				}
			}
			if len(ph.Tasks) == 1 && len(ph.Tasks[0].Ops) == 1 {
				e := req[0]
				for _, g := range gens {
					if g.Epoch != e && g.Epoch != st.top+1 || g.Epoch == st.top+1 && had && st.top == old {
						r.fail("extra", "phase %d: epoch %d was generated after a request for %d (highest so far %d)", i, g.Epoch, e, st.top)
					}
				}
				if had && e == old+1 && c.Dir != "" && !c.NoDisk && r.openedIn(i, c.path(e, false)) {
					r.fail("regen", "phase %d: the prepared epoch %d was loaded again", i, e)
				}
			}
			if r.sc.X == 1 && i == 0 && r.sc.Pol.PErr == 0 && (c.Caches >= 2 || c.Dir == "" || c.NoDisk) {
				// (with one epoch kept, preparing the next one may remove a file before it is loaded)
				for e, n := range count {
					if n > 1 {
						r.fail("regen", "epoch %d was generated %d times while going up the chain", e, n)
					}
				}
			}
		},
	})
}

// others is a generation of another epoch by the task of a call, during that call.
func (r *Run) others(c *Call) *Gen {
	for i := range r.gens {
		g := &r.gens[i]
		if !g.L1 && g.Task == c.TaskName && g.At > c.From && (!c.Ended || g.At < c.To) && g.Epoch != c.Op.E {
			return g
		}
	}
	return nil
}

type model03 struct {
	any  bool
	top  uint64
	made map[uint64]bool
}

// ---- C04, C20 -----------------------------------------------------------------------

type model04 struct {
	order []uint64 // retained, least recently requested first
	sure  bool
	live  []weak.Pointer[uint32]
}

func (m *model04) touch(e uint64, limit int) (hit bool) {
	for k, x := range m.order {
		if x == e {
			hit = true
			m.order = append(m.order[:k:k], m.order[k+1:]...)
			break
		}
	}
	m.order = append(m.order, e)
	if len(m.order) > limit {
		m.order = m.order[1:]
	}
	return
}

func gen04(r *rt.Rand, sc *Scenario) {
	sc.Pol = policy(r)
	c := light(r, storage(r, 0.5))
	if r.P(0.25) {
		c = shipped(r)
	}
	sc.Clients = []ClientSpec{c}
	sc.Procs = []ProcSpec{one("p", 0)}
	someErrors(r, sc, 0.15)
	base, span := uint64(r.Intn(3)), c.Caches+2+r.Intn(2)
	any := func() uint64 { return base + uint64(r.Intn(span)) }
	for n := 4 + r.Intn(8); n > 0; n-- {
		switch x := r.Float(); {
		case x < 0.75:
			sc.seq(r, any())
		case x < 0.85: // the retained ones, all at once
			sc.Phases = append(sc.Phases, Phase{Tag: "retained"})
			for k := 2 + r.Intn(3); k > 0; k-- {
				var t TaskSpec
				for o := 1 + r.Intn(3); o > 0; o-- {
					t.Ops = append(t.Ops, Op{K: "call", E: uint64(r.Intn(8)), M: uint64(r.Intn(64))}) // E is set when the phase begins
				}
				ph := &sc.Phases[len(sc.Phases)-1]
				ph.Tasks = append(ph.Tasks, t)
			}
		case x < 0.93: // a few, new and retained, all at once: all of them must be retained afterwards
			var ph Phase
			ph.Tag = "few"
			var set []uint64
			for k := 1 + r.Intn(c.Caches); k > 0; k-- {
				set = append(set, any())
			}
			for k := 2 + r.Intn(3); k > 0; k-- {
				var t TaskSpec
				for o := 1 + r.Intn(2); o > 0; o-- {
					t.Ops = append(t.Ops, call(r, sc, 0, 0, set[r.Intn(len(set))]))
				}
				ph.Tasks = append(ph.Tasks, t)
			}
			sc.Phases = append(sc.Phases, ph)
		default: // anything, all at once; then a known order again
			var ph Phase
			for k := 2 + r.Intn(3); k > 0; k-- {
				var t TaskSpec
				for o := 1 + r.Intn(3); o > 0; o-- {
					t.Ops = append(t.Ops, call(r, sc, 0, 0, any()))
				}
				ph.Tasks = append(ph.Tasks, t)
			}
			ph.Tag = "mixed"
			sc.Phases = append(sc.Phases, ph)
			var t TaskSpec
			perm := r.Intn(span)
			for k := 0; k < c.Caches; k++ {
				t.Ops = append(t.Ops, call(r, sc, 0, 0, base+uint64((perm+k)%span)))
			}
			sc.Phases = append(sc.Phases, Phase{Tag: "order", Tasks: []TaskSpec{t}})
		}
	}
	sc.Phases[len(sc.Phases)-1].GC = true
	for k := range sc.Phases {
		if r.P(0.2) {
			sc.Phases[k].GC = true
		}
	}
}

func setup04(r *Run) {
	m := &model04{sure: true}
	r.x = m
	r.onGen = append(r.onGen, func(g *Gen, args []interface{}) {
		if g.L1 {
			return
		}
		for _, a := range args {
			if d, ok := a.([]uint32); ok && len(d) > 0 && r.inMemory(g) {
				m.live = append(m.live, weak.Make(&d[0]))
			}
		}
	})
}

// inMemory tells whether a client keeps its caches on the heap.
func (r *Run) inMemory(g *Gen) bool { return g.C != nil && (g.C.Dir == "" || g.C.NoDisk) }

func phase04(r *Run, i int) {
	m := r.x.(*model04)
	ph := &r.sc.Phases[i]
	c := &r.sc.Clients[0]
	gens := r.phaseGens(i)
	disk := c.Dir != "" && !c.NoDisk
	ops := 0
	for _, t := range ph.Tasks {
		ops += len(t.Ops)
	}
	switch {
	case ph.Tag == "retained":
		// every epoch was retained: no work but the computations; the order is what the calls made it
		if len(gens) > 0 && m.sure && ops > 0 {
			r.fail("reload", "phase %d: epochs %s were generated although only retained epochs %v were requested", i, genList(gens), m.order)
		}
		if disk && m.sure {
			for _, e := range m.order {
				if r.openedIn(i, c.path(e, false)) {
					r.fail("reload", "phase %d: the retained epoch %d was loaded again", i, e)
				}
			}
		}
		if len(ph.Tasks) > 0 {
			m.sure = false
			r.reorder(ph)
		}
	case ph.Tag == "few":
		// whatever the order, the latest requests were for these
		known := m.sure
		for _, e := range ph.requests() {
			m.touch(e, c.Caches)
		}
		if !known {
			m.order = nil
			for _, e := range ph.requests() {
				m.touch(e, c.Caches)
			}
		}
		if ops > 0 {
			r.probe("few_at_once")
			r.reorder(ph)
			m.sure = known || len(m.order) == c.Caches
		}
	case ph.Tag == "mixed":
		if ops > 0 {
			m.sure = false
		}
	case ph.Tag == "order":
		m.order = nil
		for _, e := range ph.requests() {
			m.touch(e, c.Caches)
		}
		m.sure = len(m.order) == c.Caches
	case len(ph.Tasks) == 1 && ops == 1:
		e := ph.requests()[0]
		before := append([]uint64(nil), m.order...)
		if hit := m.touch(e, c.Caches); hit && m.sure {
			r.probe("retained_hit")
			if len(gens) > 0 {
				r.fail("reload", "phase %d: a request for epoch %d generated %s; requested before, oldest first: %v, limit %d", i, e, genList(gens), before, c.Caches)
			}
			if disk && r.openedIn(i, c.path(e, false)) {
				r.fail("reload", "phase %d: the retained epoch %d was loaded again; requested before, oldest first: %v, limit %d", i, e, before, c.Caches)
			}
		}
	}
	if ph.GC {
		r.bound04(c, m, i)
	}
}

// reorder takes the order of the last requests of a phase of retained epochs from the recorded calls.
func (r *Run) reorder(ph *Phase) {
	// calls ran at the same time, so their order is not known; only the set of retained epochs is.
	// Request them again one after another, quietly, in a fixed order.
	m := r.x.(*model04)
	order := append([]uint64(nil), m.order...)
	ps := r.procs[0]
	if ps.p == nil || ps.p.Dead {
		return
	}
	before, opens := len(r.gens), len(r.opens)
	r.s.NoPreempt, r.s.FaultsOff = true, true
	r.s.Spawn(ps.p, fmt.Sprintf("%s.%d.again", ps.p.Name, r.phase), func() {
		for _, e := range order {
			r.do(ps, 0, Op{K: "call", E: e})
		}
	})
	r.s.RunPhase()
	r.crashes()
	r.s.NoPreempt, r.s.FaultsOff = false, false
	if len(r.gens) > before && len(order) > 0 {
		r.fail("reload", "phase %d: epoch %d had to be generated again; %v were the latest ones requested", r.phase, r.gens[before].Epoch, order)
	}
	c := &r.sc.Clients[0]
	for _, o := range r.opens[opens:] {
		for _, e := range order {
			if c.Dir != "" && !c.NoDisk && o.Path == c.path(e, false) {
				r.fail("reload", "phase %d: epoch %d had to be loaded again; %v were the latest ones requested", r.phase, e, order)
			}
		}
	}
	m.sure = true
}

func (r *Run) bound04(c *ClientSpec, m *model04, i int) {
	ps := r.procs[0]
	if ps.p == nil || ps.p.Dead {
		return
	}
	limit := c.Caches + 1
	if c.Dir == "" || c.NoDisk {
		n := 0
		for _, w := range m.live {
			if w.Value() != nil {
				n++
			}
		}
		if n > limit {
			r.fail("unbounded", "phase %d: %d caches are still in memory; the client retains %d and one prepared ahead", i, n, c.Caches)
		}
		return
	}
	per := len(c.kinds())
	if n := len(r.fs.LiveMaps(ps.p)); n > limit*per {
		r.fail("unbounded", "phase %d: %d files are still mapped; the client retains %d epochs and one prepared ahead, %d files each", i, n, c.Caches, per)
	}
}

// begin04 fills in the epochs of "retained" phases.
func begin04(r *Run, i int) {
	ph := &r.sc.Phases[i]
	m := r.x.(*model04)
	if ph.Tag != "retained" {
		return
	}
	if len(m.order) == 0 || !m.sure {
		ph.Tasks = nil
		return
	}
	for t := range ph.Tasks {
		for o := range ph.Tasks[t].Ops {
			op := &ph.Tasks[t].Ops[o]
			op.E = m.order[int(op.M)%len(m.order)]
		}
	}
}

func init() {
	register(&Check{
		ID:         "C04",
		Classes:    "reload unbounded result panic hang",
		Gen:        gen04,
		Setup:      setup04,
		PhaseBegin: begin04,
		PhaseEnd:   phase04,
	})
	register(&Check{
		ID:      "C20",
		Classes: "reload unbounded result panic hang",
		Gen: func(r *rt.Rand, sc *Scenario) {
			gen04(r, sc)
			sc.Pol.PJump = rt.Pick(r, []float64{0.05, 0.2, 0.5})
			for k := range sc.Phases {
				if r.P(0.3) {
					n := int64(1) << uint(r.Intn(58))
					if r.P(0.5) {
						n = -n
					}
					sc.Phases[k].Acts = append(sc.Phases[k].Acts, Act{K: "jump", N: n})
				}
			}
		},
		Setup:      setup04,
		PhaseBegin: begin04,
		PhaseEnd:   phase04,
	})
}

// ---- C05 ------------------------------------------------------------------------

func init() {
	register(&Check{
		ID:      "C05",
		Classes: "fault misuse rewritten changed",
		Gen: func(r *rt.Rand, sc *Scenario) {
			sc.Pol = policy(r)
			sc.Pol.PSwitch = rt.Pick(r, []float64{0.2, 0.5, 0.9})
			gcs(sc, rt.Pick(r, []float64{0.02, 0.1, 0.3}), 6)
			c := light(r, storage(r, 0.85))
			c.Caches = 1 + r.Intn(2)
			sc.Clients = []ClientSpec{c}
			sc.Procs = []ProcSpec{one("p", 0)}
			span := 2 + r.Intn(4)
			for f := 1 + r.Intn(3); f > 0; f-- {
				var ph Phase
				for k := 2 + r.Intn(3); k > 0; k-- {
					var t TaskSpec
					for o := 1 + r.Intn(4); o > 0; o-- {
						if r.P(0.15) {
							t.Ops = append(t.Ops, Op{K: "gc"})
						}
						if r.P(0.1) && c.Dir != "" {
							a := Act{K: "remove", E: uint64(r.Intn(span)), L1: r.P(0.3)}
							t.Ops = append(t.Ops, Op{K: "act", Act: &a})
						}
						t.Ops = append(t.Ops, call(r, sc, 0, 0, uint64(r.Intn(span))))
					}
					ph.Tasks = append(ph.Tasks, t)
				}
				ph.GC = r.P(0.5)
				if r.P(0.3) && f > 1 {
					ph.Restart = []int{0}
				}
				sc.Phases = append(sc.Phases, ph)
			}
		},
		Setup: func(r *Run) {
			r.onEvent = append(r.onEvent, func(e fs.Event) {
				if e.Node == nil || e.Kind != "write" && e.Kind != "truncate" && e.Kind != "mapw" {
					return
				}
				if r.fs.MappedRO(e.Node) {
					r.fail("rewritten", "%s: %s of %s while it is mapped as a cache", e.Task, e.Kind, e.Path)
				}
			})
		},
		PhaseEnd: func(r *Run, i int) {
			// a wrong result that a fresh client does not repeat comes from memory that changed under the call
			for _, c := range r.calls {
				if c.Phase == i && c.Wrong != "" {
					if w := r.fresh(c); w == "" {
						r.fail("changed", "a call for epoch %d gave a wrong result because its cache's memory changed: %s", c.Op.E, c.Wrong)
					}
				}
			}
		},
	})
}

// fresh repeats a call on a new client without storage.
func (r *Run) fresh(c *Call) string {
	spec := *c.Spec
	spec.Dir = ""
	spec.NoDisk = true
	p := r.s.NewProc("fresh", 99)
	wrong := "not finished"
	r.s.NoPreempt, r.s.FaultsOff = true, true
	r.s.Spawn(p, "fresh.0", func() {
		lc := r.newClient(&spec)
		height := c.Op.E*spec.P.EpochLength + c.Op.Off
		_, digest, err := lc.compute(hashBytes(c.Op.Hash, 32), height, c.Op.Nonce)
		w := want(spec.P, c.Op.Hash, height, c.Op.Nonce)
		wrong = ""
		if err != nil || string(digest) != string(w.digest) {
			wrong = "wrong too"
		}
	})
	r.s.RunPhase()
	r.s.NoPreempt, r.s.FaultsOff = false, false
	return wrong
}

// ---- C06 ------------------------------------------------------------------------

var damage = []string{"empty", "cut", "badmagic", "zeros", "junk", "swapped", "unreadable", "dir"}

func damageAct(r *rt.Rand, sc *Scenario, spec int, e uint64) Act {
	c := &sc.Clients[spec]
	a := Act{K: rt.Pick(r, damage), C: spec, E: e, L1: c.P.L1 && r.P(0.5), N: int64(r.Intn(64))}
	if a.K == "cut" {
		n := int64(c.fullSize(e, a.L1))
		a.N = rt.Pick(r, []int64{1, 4, 7, 8, 9, 11, 12, 72, n / 2, n/2 + 3, n - 64, n - 4, n - 1, n + 1, n + 4, n + 64, n + 4096, n + 8192, 4096, 4104})
		if a.N == n || a.N < 0 {
			a.N = n - 1
		}
	}
	return a
}

func (c *ClientSpec) fullSize(e uint64, l1 bool) int {
	if l1 {
		return 8 + 4096*4
	}
	return 8 + int(ref.CacheSize(c.P, e))
}

func init() {
	register(&Check{
		ID:      "C06",
		Classes: "leak misuse",
		Gen: func(r *rt.Rand, sc *Scenario) {
			sc.Pol = policy(r)
			gcs(sc, rt.Pick(r, []float64{0, 0.02}), 3)
			c := light(r, dir1)
			c.Caches = 1 + r.Intn(3)
			if r.P(0.1) {
				c = shipped(r)
				c.NoDisk = false
			}
			sc.Clients = []ClientSpec{c}
			sc.Procs = []ProcSpec{one("p", 0)}
			if r.P(0.7) {
				sc.Pol.PErr, sc.Pol.MaxErrs = rt.Pick(r, []float64{0.02, 0.1, 0.3, 0.6}), 30
				if r.P(0.5) {
					sc.Pol.ErrKinds = rt.Pick(r, []string{"mmap", "mlock", "rename", "truncate,write,fallocate", "open", "close", "msync,fsync", "mmap,mlock", "remove", "create,mkdir"})
				}
			}
			if sc.Pol.ErrKinds == "" { // all but munmap: what cannot be unmapped stays
				sc.Pol.ErrKinds = allKinds
			}
			if r.P(0.3) {
				sc.Clients[0].Lock = true
			}
			span := 3 + r.Intn(4)
			for f := 2 + r.Intn(5); f > 0; f-- {
				var ph Phase
				for k := 1 + r.Intn(2); k > 0; k-- {
					var t TaskSpec
					for o := 1 + r.Intn(3); o > 0; o-- {
						t.Ops = append(t.Ops, call(r, sc, 0, 0, uint64(r.Intn(span))))
					}
					ph.Tasks = append(ph.Tasks, t)
				}
				if c.Ctor == "" {
					for k := r.Intn(3); k > 0; k-- {
						ph.Acts = append(ph.Acts, damageAct(r, sc, 0, uint64(r.Intn(span+1))))
					}
					if r.P(0.1) {
						ph.Acts = append(ph.Acts, Act{K: "deny", Path: rt.Pick(r, []string{"mmap", "mlock", "rename", "truncate", "open", "create", "write"}), Arg: "EACCES"})
					} else if r.P(0.3) {
						ph.Acts = append(ph.Acts, Act{K: "allow"})
					}
				}
				ph.GC = r.P(0.6)
				sc.Phases = append(sc.Phases, ph)
			}
			sc.Phases = append(sc.Phases, Phase{Drop: true, GC: true, Tag: "dropped"})
		},
		PhaseEnd: func(r *Run, i int) {
			ph := &r.sc.Phases[i]
			ps := r.procs[0]
			if !ph.GC || ps.p == nil || ps.p.Dead {
				return
			}
			c := &r.sc.Clients[0]
			limit := (c.Caches + 1) * len(c.kinds())
			if ph.Drop && r.s.Leftover(ps.p) == 0 { // a goroutine that stays may hold the client
				limit = 0
			}
			hs, ms := r.fs.OpenHandles(ps.p), r.fs.LiveMaps(ps.p)
			if len(hs) > limit {
				r.fail("leak", "phase %d %s: %d descriptors are open, at most %d are needed: %s", i, ph.Tag, len(hs), limit, handleList(hs))
			}
			if len(ms) > limit {
				r.fail("leak", "phase %d %s: %d files are mapped, at most %d are needed", i, ph.Tag, len(ms), limit)
			}
		},
	})
}

func handleList(hs []*fs.Handle) string {
	var out []string
	for _, h := range hs {
		out = append(out, fmt.Sprintf("%s (by %s)", h.Path, h.By))
	}
	return strings.Join(out, ", ")
}

// ---- C14 ------------------------------------------------------------------------

func init() {
	register(&Check{
		ID:      "C14",
		Classes: "blocked result panic hang",
		Gen: func(r *rt.Rand, sc *Scenario) {
			sc.Pol = policy(r)
			c := light(r, storage(r, 0.5))
			if r.P(0.3) {
				c = client(r, storage(r, 0.5))
			}
			nw := 1 + r.Intn(3)
			c.Caches = nw + 4
			tight := r.P(0.35)
			if tight {
				// so few that generating epochs are dropped
				c.Caches = 2 + r.Intn(2)
				nw = 1 + r.Intn(c.Caches-1)
			}
			sc.Clients = []ClientSpec{c}
			sc.Procs = []ProcSpec{one("p", 0)}
			if r.P(0.3) {
				o := light(r, storage(r, 0.5))
				o.Caches = c.Caches
				if r.P(0.5) {
					o = c
				}
				sc.Clients = append(sc.Clients, o)
				sc.Procs[0].Clients = []int{0, 1}
			}
			var warm []uint64
			for k := 0; k < nw; k++ {
				warm = append(warm, uint64(k))
			}
			p0 := Phase{Quiet: true, Tag: "warm"}
			var t TaskSpec
			for s := range sc.Procs[0].Clients {
				for _, e := range warm {
					t.Ops = append(t.Ops, call(r, sc, s, s, e))
				}
			}
			p0.Tasks = []TaskSpec{t}
			sc.Phases = append(sc.Phases, p0)
			sc.Pol.PStall, sc.Pol.MaxStalls = rt.Pick(r, []float64{0.05, 0.3, 1}), 1+r.Intn(3)
			sc.Pol.StallIn = rt.Pick(r, []string{"dag.generateCache,dag.generateL1Cache", "dag.generateCache,dag.generateL1Cache", "dag.generateCache,dag.generateL1Cache,op", "dag.generateL1Cache", "op"})
			if !c.P.L1 && sc.Pol.StallIn == "dag.generateL1Cache" {
				sc.Pol.StallIn = "dag.generateCache"
			}
			ph := Phase{Tag: "stall"}
			if tight {
				// tasks for epochs that are not ready, which displace each other and, often, all but the latest ready ones
				for k := 2 + r.Intn(3); k > 0; k-- {
					t := TaskSpec{}
					if r.P(0.4) {
						t.Ops = append(t.Ops, call(r, sc, 0, 0, warm[r.Intn(nw)]))
					}
					t.Ops = append(t.Ops, call(r, sc, 0, 0, uint64(nw+1+k*2)))
					if r.P(0.4) {
						t.Ops = append(t.Ops, call(r, sc, 0, 0, warm[r.Intn(nw)]))
					}
					ph.Tasks = append(ph.Tasks, t)
				}
				for k := 1 + r.Intn(2); k > 0; k-- {
					t := TaskSpec{}
					for o := 2 + r.Intn(3); o > 0; o-- {
						t.Ops = append(t.Ops, call(r, sc, 0, 0, warm[r.Intn(nw)]))
					}
					ph.Tasks = append(ph.Tasks, t)
				}
				for k := len(ph.Tasks) - 1; k > 0; k-- {
					j := r.Intn(k + 1)
					ph.Tasks[k], ph.Tasks[j] = ph.Tasks[j], ph.Tasks[k]
				}
				sc.Phases = append(sc.Phases, ph)
				sc.X = ^uint64(0)
				return
			}
			cold := r.Intn(3)
			for k := 0; k < cold; k++ {
				t := TaskSpec{}
				t.Ops = append(t.Ops, call(r, sc, 0, 0, uint64(nw+2+r.Intn(2)*3)))
				if r.P(0.3) {
					t.Ops = append(t.Ops, call(r, sc, 0, 0, warm[0]))
				}
				ph.Tasks = append(ph.Tasks, t)
			}
			for k := 2 + r.Intn(3); k > 0; k-- {
				t := TaskSpec{}
				for o := 1 + r.Intn(3); o > 0; o-- {
					s := r.Intn(len(sc.Procs[0].Clients))
					e := warm[r.Intn(len(warm))]
					if cold == 0 && r.P(0.4) {
						e = uint64(nw) // prepared in the background, so ready; the epoch after it is not
					}
					t.Ops = append(t.Ops, call(r, sc, s, s, e))
				}
				ph.Tasks = append(ph.Tasks, t)
			}
			// order of tasks is order of creation: sometimes the ready ones start first
			if r.P(0.5) {
				ph.Tasks[0], ph.Tasks[len(ph.Tasks)-1] = ph.Tasks[len(ph.Tasks)-1], ph.Tasks[0]
			}
			sc.Phases = append(sc.Phases, ph)
			if r.P(0.4) && cold > 0 {
				sc.Phases = append(sc.Phases, ph)
			}
			sc.X = uint64(nw)
		},
		Setup: func(r *Run) {
			r.s.OnOnlyStalled = func() {
				ph := &r.sc.Phases[r.phase]
				if ph.Tag != "stall" {
					return
				}
				r.probe("only_stalled_tasks_left")
				own := map[string]bool{}
				for _, n := range r.s.StalledTasks() {
					own[n] = true
				}
				for _, n := range r.s.Alive() {
					n, _, _ = strings.Cut(n, " ")
					var inst string
					var p, k int
					if strings.Contains(n, "/") {
						continue
					}
					if own[n] { // stalled itself: with its own epoch, or with another's?
						if c := r.pending(n); c != nil {
							if g := r.others(c); g != nil {
								r.fail("blocked", "%s calls for epoch %d but is stalled generating epoch %d", n, c.Op.E, g.Epoch)
							}
						}
						continue
					}
					f := strings.Split(n, ".")
					if len(f) != 3 {
						continue
					}
					inst = f[0]
					fmt.Sscan(f[1], &p)
					fmt.Sscan(f[2], &k)
					if inst == "" || p != r.phase || k >= len(ph.Tasks) {
						continue
					}
					ready := r.sc.X != ^uint64(0)
					for _, o := range ph.Tasks[k].Ops {
						if o.E > r.sc.X {
							ready = false
						}
					}
					if ready {
						r.fail("blocked", "%s calls only for ready epochs but waits while %s is stalled", n, strings.Join(r.s.StalledTasks(), ", "))
					} else if c := r.pending(n); c != nil && r.surelyReady(c) {
						r.probe("retained_epoch_pending")
						r.fail("blocked", "%s calls for epoch %d, which is ready and among the most recently used, but waits while %s is stalled", n, c.Op.E, strings.Join(r.s.StalledTasks(), ", "))
					}
				}
			}
		},
	})
}

// pending is the call a task is in.
func (r *Run) pending(task string) *Call {
	for i := len(r.calls) - 1; i >= 0; i-- {
		if c := r.calls[i]; c.TaskName == task {
			if c.Ended {
				return nil
			}
			return c
		}
	}
	return nil
}

// surelyReady reports that the epoch of a call was ready before it began and that, whatever the order in which the
// calls since then took effect, too few other epochs were called for since for a client to have dropped it.
func (r *Run) surelyReady(c *Call) bool {
	same := func(o *Call) bool { return o.Proc == c.Proc && o.C == c.C }
	var last *Call
	for _, o := range r.calls {
		if same(o) && o.Ended && o.Op.E == c.Op.E && o.To < c.From && (last == nil || o.From > last.From) {
			last = o
		}
	}
	if last == nil {
		return false
	}
	others := map[uint64]bool{}
	for _, o := range r.calls {
		if !same(o) || o.Op.E == c.Op.E || o.Ended && o.To < last.From {
			continue
		}
		before := false
		for _, g := range r.gens {
			before = before || g.Task == o.TaskName && g.Epoch == o.Op.E && g.At > o.From && g.At < last.From
		}
		if !before {
			others[o.Op.E] = true
		}
	}
	return len(others) < c.Spec.Caches
}
