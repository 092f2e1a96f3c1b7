//go:build go1.25

package verifharness

import (
	"bytes"
	"fmt"
	"path/filepath"
	"sort"
	"strings"

	"powsim/fs"
	"powsim/rt"
)

// The checks of what happens on the disk: crashes, errors, damage, several processes, and the life of cache files.

var errGroups = []string{"", "", "munmap", "mmap", "mlock", "rename", "truncate,write,fallocate", "open", "close", "msync,fsync", "mmap,mlock", "remove", "create,mkdir", "stat", "create,rename,close"}

// ops draws calls of one client slot.
func ops(r *rt.Rand, sc *Scenario, slot, spec, n int, base uint64, span int) TaskSpec {
	var t TaskSpec
	for ; n > 0; n-- {
		t.Ops = append(t.Ops, call(r, sc, slot, spec, base+uint64(r.Intn(span))))
	}
	return t
}

// malformed puts a few calls with malformed hashes between a scenario's calls.
func malformed(r *rt.Rand, sc *Scenario) {
	if !r.P(0.15) {
		return
	}
	for i := range sc.Phases {
		for k := range sc.Phases[i].Tasks {
			t := &sc.Phases[i].Tasks[k]
			for n := len(t.Ops) - 1; n >= 0; n-- {
				if op := t.Ops[n]; op.K == "call" && r.P(0.3) {
					op.K, op.V = "bad", r.Intn(4)
					t.Ops = append(t.Ops[:n], append([]Op{op}, t.Ops[n:]...)...)
				}
			}
		}
	}
}

// enlarge has some runs use caches of more than a MiB, which are stored in several pieces.
func enlarge(r *rt.Rand, sc *Scenario) {
	if !r.P(0.02) {
		return
	}
	size := rt.Pick(r, []uint64{1<<20 - 256, 1<<20 + 1024, 3<<20 + 512})
	for i := range sc.Clients {
		if c := &sc.Clients[i]; c.Ctor == "" && c.P.EpochLength > 0 {
			c.P.CacheInit, c.P.Rounds = size, 1
			c.Name += fmt.Sprintf("-%x", size)
		}
	}
}

// construct has some calls made on clients of their own.
func construct(r *rt.Rand, sc *Scenario) {
	for i := range sc.Procs {
		sc.Procs[i].Late = sc.Procs[i].Args == nil && r.P(0.15)
	}
	if !r.P(0.2) {
		return
	}
	for i := range sc.Phases {
		for k := range sc.Phases[i].Tasks {
			for n := range sc.Phases[i].Tasks[k].Ops {
				if op := &sc.Phases[i].Tasks[k].Ops[n]; op.K == "call" && r.P(0.3) {
					op.K = "new"
				}
			}
		}
	}
}

// ---- C07, C08: process death and power loss ------------------------------------------------

func genCrash(r *rt.Rand, sc *Scenario, power bool) {
	sc.Pol = policy(r)
	sc.Pol.PSwitch = rt.Pick(r, []float64{0.01, 0.1, 0.5})
	n := 1 + r.Intn(2)
	p := one("p")
	for i := 0; i < n; i++ {
		c := light(r, dir1)
		if i > 0 && r.P(0.5) {
			c = sc.Clients[i-1]
		}
		sc.Clients = append(sc.Clients, c)
		p.Clients = append(p.Clients, i)
	}
	sc.Procs = []ProcSpec{p}
	if r.P(0.2) {
		q := one("q", p.Clients...)
		sc.Procs = append(sc.Procs, q)
	}
	kill := rt.Pick(r, []float64{0.001, 0.01, 0.03, 0.1})
	if power {
		sc.Pol.PPower, sc.Pol.MaxKills = kill, 1+r.Intn(2)
		if r.P(0.3) {
			sc.Pol.PPower = 0
		}
		if r.P(0.2) {
			sc.Pol.PKill = kill
		}
	} else {
		sc.Pol.PKill, sc.Pol.MaxKills = kill, 1+r.Intn(3)
	}
	if r.P(0.25) {
		sc.Pol.PErr, sc.Pol.MaxErrs = rt.Pick(r, []float64{0.05, 0.5, 1}), rt.Pick(r, []int{1, 4, 50})
		sc.Pol.ErrKinds = rt.Pick(r, []string{allKinds, "msync,fsync", "msync,fsync", "rename,link,close", "write,truncate,fallocate"})
	}
	base, span := uint64(r.Intn(3)), 1+r.Intn(4)
	phases := 2 + r.Intn(3)
	for f := 0; f < phases; f++ {
		var ph Phase
		for k := 1 + r.Intn(3); k > 0; k-- {
			c := r.Intn(n)
			t := ops(r, sc, c, c, 1+r.Intn(3), base, span)
			t.Proc = r.Intn(len(sc.Procs))
			ph.Tasks = append(ph.Tasks, t)
		}
		if f > 0 && power && r.P(0.6) {
			ph.Acts = append(ph.Acts, Act{K: "power", N: int64(r.U64() >> 2)})
		} else if f > 0 && r.P(0.4) {
			ph.Restart = []int{0}
		}
		if f == phases-1 {
			ph.Calm = true
			if len(ph.Acts) == 0 {
				ph.Restart = []int{0}
			}
		}
		sc.Phases = append(sc.Phases, ph)
	}
}

func init() {
	register(&Check{ID: "C07", Classes: "result panic hang", Gen: func(r *rt.Rand, sc *Scenario) { genCrash(r, sc, false) }})
	register(&Check{ID: "C08", Classes: "result panic hang", Gen: func(r *rt.Rand, sc *Scenario) { genCrash(r, sc, true) }})
}

// ---- C09: errors and full disks --------------------------------------------------------------

func genErrors(r *rt.Rand, sc *Scenario) {
	sc.Pol = policy(r)
	n := 1 + r.Intn(2)
	p := one("p")
	for i := 0; i < n; i++ {
		c := light(r, dir1)
		if r.P(0.08) {
			c = shipped(r)
			c.NoDisk = false
			for _, o := range sc.Clients {
				if o.Ctor == c.Ctor {
					c = o // a coin has one set of parameters
				}
			}
		}
		sc.Clients = append(sc.Clients, c)
		p.Clients = append(p.Clients, i)
	}
	sc.Procs = []ProcSpec{p}
	if r.P(0.2) {
		gcs(sc, 0.02, 3)
	}
	if r.P(0.7) {
		sc.Pol.PErr, sc.Pol.MaxErrs = rt.Pick(r, []float64{0.02, 0.1, 0.4, 1}), rt.Pick(r, []int{1, 3, 50})
		sc.Pol.ErrKinds = rt.Pick(r, errGroups)
	}
	if r.P(0.3) {
		sc.Pol.PFull = rt.Pick(r, []float64{0.02, 0.1, 0.3})
	}
	base, span := uint64(r.Intn(3)), 1+r.Intn(4)
	for f := 1 + r.Intn(3); f > 0; f-- {
		var ph Phase
		for k := 1 + r.Intn(3); k > 0; k-- {
			c := r.Intn(n)
			ph.Tasks = append(ph.Tasks, ops(r, sc, c, c, 1+r.Intn(3), base, span))
		}
		if r.P(0.25) {
			ph.Acts = append(ph.Acts, Act{K: "deny", Path: rt.Pick(r, []string{"open", "create", "mkdir", "truncate", "write", "mmap", "mlock", "msync", "fsync", "close", "rename", "remove", "stat", "fallocate"}),
				Arg: rt.Pick(r, []string{"EACCES", "EIO", "ENOSPC", "EMFILE", "EROFS", "EOPNOTSUPP"})})
		} else if r.P(0.3) {
			ph.Acts = append(ph.Acts, Act{K: "allow"})
		}
		if r.P(0.2) {
			ph.Acts = append(ph.Acts, Act{K: "full", N: int64(r.Intn(2))})
		}
		if r.P(0.08) {
			ph.Acts = append(ph.Acts, Act{K: rt.Pick(r, []string{"file", "dir", "link"}), Path: dir1, Arg: rt.Pick(r, []string{"/nowhere", dir1, "/work"})})
		}
		if r.P(0.1) && sc.Clients[0].Ctor == "" {
			ph.Acts = append(ph.Acts, Act{K: "dir", E: base + uint64(r.Intn(span)), L1: r.P(0.3)})
		}
		if r.P(0.3) && f > 1 {
			ph.Restart = []int{0}
		}
		sc.Phases = append(sc.Phases, ph)
	}
}

func init() {
	register(&Check{ID: "C09", Classes: "result panic hang", Gen: genErrors})
}

// ---- C10: damaged files ------------------------------------------------------------------------

func init() {
	register(&Check{
		ID:      "C10",
		Classes: "result panic hang notreplaced",
		Gen: func(r *rt.Rand, sc *Scenario) {
			sc.Pol = policy(r)
			c := light(r, dir1)
			if r.P(0.3) {
				c = client(r, dir1, "kawpow", "firopow", "ethash")
			}
			if r.P(0.5) {
				c.Caches += 4
			}
			sc.Clients = []ClientSpec{c}
			sc.Procs = []ProcSpec{one("p", 0)}
			base, span := uint64(r.Intn(3)), 1+r.Intn(3)
			for f := 1 + r.Intn(3); f > 0; f-- {
				ph := Phase{}
				if r.P(0.7) {
					ph.Restart = []int{0}
				}
				for k := 1 + r.Intn(3); k > 0; k-- {
					ph.Acts = append(ph.Acts, damageAct(r, sc, 0, base+uint64(r.Intn(span+1))))
				}
				if r.P(0.1) {
					ph.Acts = append(ph.Acts, Act{K: "link", E: base, Arg: rt.Pick(r, []string{"/nowhere", c.path(base, false), "/work"})})
				}
				for k := 1 + r.Intn(3); k > 0; k-- {
					t := ops(r, sc, 0, 0, 1+r.Intn(3), base, span)
					if r.P(0.2) { // while the client runs
						a := damageAct(r, sc, 0, base+uint64(r.Intn(span)))
						t.Ops = append(t.Ops, Op{K: "act", Act: &a})
						t.Ops = append(t.Ops, ops(r, sc, 0, 0, 1, base, span).Ops...)
					}
					ph.Tasks = append(ph.Tasks, t)
				}
				sc.Phases = append(sc.Phases, ph)
			}
			// a fresh process needs every epoch once more, one after another
			last := Phase{Calm: true, Restart: []int{0}, Tag: "last"}
			e := base + uint64(r.Intn(span))
			last.Acts = append(last.Acts, damageAct(r, sc, 0, e))
			last.Tasks = []TaskSpec{{Ops: []Op{call(r, sc, 0, 0, e)}}}
			sc.Phases = append(sc.Phases, last)
		},
		PhaseEnd: func(r *Run, i int) {
			ph := &r.sc.Phases[i]
			if ph.Tag != "last" || len(ph.Tasks) == 0 || len(ph.Tasks[0].Ops) == 0 {
				return
			}
			c := &r.sc.Clients[0]
			e := ph.Tasks[0].Ops[0].E
			if c.Caches < 2 {
				return // preparing the next epoch may have removed this one's files
			}
			for _, l1 := range c.kinds() {
				n := r.fs.Node(c.path(e, l1))
				if n != nil && (n.Dir || n.Link != "") {
					continue // a directory cannot be replaced; a link is not followed here
				}
				if !r.whole(c, e, l1) {
					r.fail("notreplaced", "after a request for epoch %d its file %s is still not a complete cache", e, c.path(e, l1))
				}
			}
		},
	})
}

// ---- C11: several processes ---------------------------------------------------------------------

func genProcs(r *rt.Rand, sc *Scenario) {
	sc.Pol = policy(r)
	sc.Pol.POpSwitch = rt.Pick(r, []float64{0.1, 0.3, 0.6, 0.9})
	n := 1 + r.Intn(2)
	for i := 0; i < n; i++ {
		c := light(r, dir1)
		if r.P(0.6) {
			c.Caches = 1 + r.Intn(2)
		}
		sc.Clients = append(sc.Clients, c)
	}
	procs := 2 + r.Intn(2)
	for k := 0; k < procs; k++ {
		p := one(string(rune('p' + k)))
		for i := range sc.Clients {
			if i == 0 || r.P(0.7) {
				p.Clients = append(p.Clients, i)
			}
		}
		if r.P(0.2) {
			p.Clients = append(p.Clients, 0) // two clients of a coin
		}
		if r.P(0.3) {
			p.Rand = 1 + uint64(k)
		}
		sc.Procs = append(sc.Procs, p)
	}
	if r.P(0.3) {
		sc.Pol.PKill, sc.Pol.MaxKills = rt.Pick(r, []float64{0.001, 0.01, 0.05}), 1+r.Intn(2)
	}
	if r.P(0.2) {
		gcs(sc, 0.02, 3)
	}
	base, span := uint64(r.Intn(3)), 1+r.Intn(4)
	for f := 1 + r.Intn(2); f > 0; f-- {
		var ph Phase
		for k := range sc.Procs {
			for j := 1 + r.Intn(2); j > 0; j-- {
				var t TaskSpec
				t.Proc = k
				for o := 1 + r.Intn(3); o > 0; o-- {
					slot := r.Intn(len(sc.Procs[k].Clients))
					t.Ops = append(t.Ops, call(r, sc, slot, sc.Procs[k].Clients[slot], base+uint64(r.Intn(span))))
				}
				ph.Tasks = append(ph.Tasks, t)
			}
		}
		if r.P(0.3) && f > 1 {
			ph.Restart = []int{r.Intn(procs)}
		}
		sc.Phases = append(sc.Phases, ph)
	}
}

func init() {
	register(&Check{ID: "C11", Classes: "result panic hang", Gen: genProcs})
}

// ---- C12: removal of old files -------------------------------------------------------------------

type model12 struct {
	pub map[string]bool // names given to files in this phase
}

const farEpoch = 40

func init() {
	register(&Check{
		ID:      "C12",
		Classes: "kept removed",
		Gen: func(r *rt.Rand, sc *Scenario) {
			sc.Pol = policy(r)
			c := light(r, dir1)
			if r.P(0.2) {
				c = client(r, dir1, "kawpow", "firopow")
			}
			if r.P(0.15) {
				c = shipped(r)
				c.NoDisk = false
			}
			sc.Clients = []ClientSpec{c}
			sc.Procs = []ProcSpec{one("p", 0)}
			if r.P(0.15) {
				sc.Procs = append(sc.Procs, one("q", 0))
			}
			e := uint64(r.Intn(5))
			for f := 2 + r.Intn(5); f > 0; f-- {
				ph := Phase{}
				if r.P(0.4) {
					ph.Restart = []int{0}
				}
				if c.Ctor == "" && r.P(0.5) {
					for k := 1 + r.Intn(4); k > 0; k-- { // left by an earlier process
						x := uint64(r.Intn(int(e) + 4))
						ph.Acts = append(ph.Acts, Act{K: "whole", E: x, L1: c.P.L1 && r.P(0.5)})
					}
				}
				if r.P(0.7) {
					ph.Tasks = []TaskSpec{{Ops: []Op{call(r, sc, 0, 0, e)}}}
				} else {
					for k := 2 + r.Intn(2); k > 0; k-- {
						t := ops(r, sc, 0, 0, 1+r.Intn(2), e-min(e, 1), 3)
						t.Proc = r.Intn(len(sc.Procs))
						ph.Tasks = append(ph.Tasks, t)
					}
				}
				sc.Phases = append(sc.Phases, ph)
				switch x := r.Float(); {
				case x < 0.5:
					e++
				case x < 0.7:
					e += uint64(2 + r.Intn(4))
				case x < 0.85:
					e -= min(e, uint64(r.Intn(4)))
				case x < 0.93:
					e = min(e+uint64(8+r.Intn(24)), farEpoch-3)
				}
			}
		},
		Setup: func(r *Run) {
			c := &r.sc.Clients[0]
			m := &model12{pub: map[string]bool{}}
			r.x = m
			r.onEvent = append(r.onEvent, func(e fs.Event) {
				switch e.Kind {
				case "rename", "link":
					m.pub[e.To] = true
				case "create":
					m.pub[e.Path] = true
				}
				if e.Kind != "remove" && e.Kind != "rename" || c.Dir == "" {
					return
				}
				if x, top, bad := r.tooEarly(e, true); bad {
					r.fail("removed", "phase %d: %s removed the file of epoch %d although no epoch above %d was generated and %d are kept", r.phase, e.Task, x, top, c.Caches)
				}
			})
		},
		PhaseBegin: func(r *Run, i int) { r.x.(*model12).pub = map[string]bool{} },
		PhaseEnd: func(r *Run, i int) {
			c := &r.sc.Clients[0]
			m := r.x.(*model12)
			made := map[uint64]bool{}
			top := int64(-1)
			for _, g := range r.phaseGens(i) {
				made[g.Epoch] = true
				if n := r.fs.Node(c.path(g.Epoch, false)); n != nil {
					top = max(top, int64(g.Epoch))
				}
			}
			for x := int64(0); x <= top-int64(c.Caches); x++ {
				if made[uint64(x)] {
					continue
				}
				for _, l1 := range c.kinds() {
					if p := c.path(uint64(x), l1); r.fs.Node(p) != nil && !m.pub[p] {
						r.fail("kept", "phase %d: epoch %d was generated and stored, %d are kept, but the file %s of epoch %d is still there", i, top, c.Caches, c.path(uint64(x), l1), x)
					}
				}
			}
		},
	})
}

// tooEarly tells whether a removed file of the first client's was of an epoch within the retention window.
func (r *Run) tooEarly(e fs.Event, strict bool) (x uint64, top int64, bad bool) {
	c := &r.sc.Clients[0]
	x, _, ok := c.epochOf(e.Path, farEpoch)
	if !ok {
		return
	}
	top = -1
	for _, q := range r.sc.Phases[r.phase].requests() {
		top = max(top, int64(q))
	}
	by, _, _ := strings.Cut(e.Task, ".")
	by, _, _ = strings.Cut(by, "#")
	if !strict || r.highest(r.phase, by) <= top {
		top++ // the epoch after the highest one requested is prepared
	}
	for _, g := range r.phaseGens(r.phase) {
		top = max(top, int64(g.Epoch))
	}
	return x, top, int64(x) > top-int64(c.Caches)
}

// highest is the highest epoch a process, as it runs now, requested before phase i.
func (r *Run) highest(i int, proc string) int64 {
	h := int64(-1)
	for k := 0; k < i; k++ {
		for _, t := range r.sc.Phases[k].Tasks {
			if r.sc.Procs[t.Proc].Name != proc {
				continue
			}
			for _, o := range t.Ops {
				if o.K == "call" || o.K == "" {
					h = max(h, int64(o.E))
				}
			}
		}
	}
	for _, p := range r.sc.Phases {
		if len(p.Restart) > 0 {
			return -1 // a new process prepares again
		}
	}
	return h
}

// ---- C13: reuse of stored files ---------------------------------------------------------------------

type model13 struct {
	node map[string]*fs.Node // complete files at the beginning of the phase
	full map[uint64]bool     // epochs whose main file is complete
	gone map[string]bool
}

func init() {
	register(&Check{
		ID:      "C13",
		Classes: "regen rewritten removed",
		Gen: func(r *rt.Rand, sc *Scenario) {
			sc.Pol = policy(r)
			c := light(r, dir1)
			if r.P(0.5) {
				c = client(r, dir1, "kawpow", "firopow", "ethash")
			}
			c.Lock = c.Lock && r.P(0.5)
			if r.P(0.1) {
				c = shipped(r)
				c.NoDisk = false
			}
			sc.Clients = []ClientSpec{c}
			sc.Procs = []ProcSpec{one("p", 0)}
			if r.P(0.3) {
				sc.Procs = append(sc.Procs, one("q", 0))
			}
			if r.P(0.4) {
				sc.Pol.PKill, sc.Pol.MaxKills = rt.Pick(r, []float64{0.001, 0.01, 0.05}), 2
			}
			base, span := uint64(r.Intn(3)), 1+r.Intn(3)
			for f := 2 + r.Intn(4); f > 0; f-- {
				ph := Phase{}
				if r.P(0.7) {
					ph.Restart = []int{0}
				}
				if c.Ctor == "" {
					for k := r.Intn(3); k > 0; k-- {
						ph.Acts = append(ph.Acts, Act{K: rt.Pick(r, []string{"whole", "whole", "remove"}), E: base + uint64(r.Intn(span+1)), L1: c.P.L1 && r.P(0.5)})
					}
					if r.P(0.2) { // another user's files
						for e := base; e <= base+uint64(span); e++ {
							for _, l1 := range c.kinds() {
								ph.Acts = append(ph.Acts, Act{K: "protect", E: e, L1: l1})
							}
						}
					}
					if r.P(0.15) { // storage that cannot be written
						for _, k := range []string{"create", "rename", "remove", "link"} {
							ph.Acts = append(ph.Acts, Act{K: "deny", Path: k, Arg: "EROFS"})
						}
					} else {
						ph.Acts = append(ph.Acts, Act{K: "allow"})
					}
				}
				for k := 1 + r.Intn(2); k > 0; k-- {
					t := ops(r, sc, 0, 0, 1+r.Intn(3), base, span)
					t.Proc = r.Intn(len(sc.Procs))
					ph.Tasks = append(ph.Tasks, t)
				}
				sc.Phases = append(sc.Phases, ph)
			}
		},
		Setup: func(r *Run) {
			m := &model13{}
			r.x = m
			c := &r.sc.Clients[0]
			r.onEvent = append(r.onEvent, func(e fs.Event) {
				for p, n := range m.node {
					switch {
					case e.Kind == "remove" && e.Path == p:
						if x, top, bad := r.tooEarly(e, false); bad && !m.gone[p] {
							r.fail("removed", "phase %d: %s removed the complete file %s of epoch %d although no epoch above %d was needed and %d are kept", r.phase, e.Task, p, x, top, c.Caches)
						}
						m.gone[p] = true
					case m.gone[p]:
					case e.Kind == "rename" && e.To == p, (e.Kind == "create" || e.Kind == "link") && (e.Path == p && e.Kind == "create" || e.To == p):
						r.fail("rewritten", "phase %d: %s replaced the complete file %s", r.phase, e.Task, p)
					case e.Node == n && (e.Kind == "write" || e.Kind == "truncate" || e.Kind == "mapw"):
						r.fail("rewritten", "phase %d: %s: %s of the complete file %s", r.phase, e.Task, e.Kind, p)
					case e.Kind == "rename" && e.Path == p:
						r.fail("rewritten", "phase %d: %s moved the complete file %s away", r.phase, e.Task, p)
					}
				}
			})
			r.onGen = append(r.onGen, func(g *Gen, args []interface{}) {
				if m.full == nil {
					return
				}
				if !g.L1 {
					if p := c.path(g.Epoch, false); m.full[g.Epoch] && !m.gone[p] && m.node[p] != nil {
						r.fail("regen", "phase %d: %s generated epoch %d although %s was complete", r.phase, g.Task, g.Epoch, p)
					}
					return
				}
				// a first-level cache: of an unknown epoch, so only if none can be missing
				ph := &r.sc.Phases[r.phase]
				for _, q := range ph.requests() {
					for e := q; e <= q+1; e++ {
						if p := c.path(e, true); m.node[p] == nil || m.gone[p] {
							return
						}
					}
				}
				if len(r.sc.Procs) == 1 && r.highest(r.phase, r.sc.Procs[0].Name) < 0 {
					r.fail("regen", "phase %d: %s generated a first-level cache although all were complete", r.phase, g.Task)
				}
			})
		},
		PhaseReady: func(r *Run, i int) {
			m := r.x.(*model13)
			c := &r.sc.Clients[0]
			m.node, m.full, m.gone = map[string]*fs.Node{}, map[uint64]bool{}, map[string]bool{}
			if c.Dir == "" {
				return
			}
			for e := uint64(0); e <= maxEpoch; e++ {
				for _, l1 := range c.kinds() {
					if r.whole(c, e, l1) {
						p := c.path(e, l1)
						m.node[p] = r.fs.Node(p)
						if !l1 {
							m.full[e] = true
							r.probe("complete_file_at_phase_start")
						}
					}
				}
			}
		},
	})
}

// ---- C19: other coins' files ---------------------------------------------------------------------------

type foreignFile struct {
	node *fs.Node
	data []byte
	mode uint32
}

func init() {
	register(&Check{
		ID:      "C19",
		Classes: "foreign outside home",
		Gen: func(r *rt.Rand, sc *Scenario) {
			sc.Pol = policy(r)
			n := 1 + r.Intn(3)
			for i := 0; i < n; i++ {
				c := light(r, dir1)
				if i > 0 {
					switch r.Intn(3) {
					case 0: // another revision of the coin
						c = sc.Clients[0]
						c.Rev = sc.Clients[0].Rev + i
					case 1: // a coin with a similar name
						c = sc.Clients[0]
						switch r.Intn(4) {
						case 0:
							c.Name = strings.ToLower(c.Name)
						case 1:
							c.Name = strings.Replace(c.Name, "-", rt.Pick(r, []string{"_", ".", " ", ""}), 1)
						case 2:
							long := strings.Repeat("long", 12)
							sc.Clients[0].Name += long
							c.Name += long + "2"
						default:
							c.Name += rt.Pick(r, []string{"C", "-R1", "2", "-"}) + fmt.Sprint(i)
						}
					}
				} else if r.P(0.3) {
					c = shipped(r)
					c.NoDisk = false
				}
				if i > 0 && sc.Clients[0].Ctor != "" {
					// another shipped coin
					for {
						c = shipped(r)
						c.NoDisk = false
						same := false
						for _, o := range sc.Clients {
							same = same || o.Ctor == c.Ctor
						}
						if !same {
							break
						}
					}
				}
				sc.Clients = append(sc.Clients, c)
				sc.Procs = append(sc.Procs, one(string(rune('p'+i)), i))
			}
			if sc.Clients[n-1].Ctor == "" && n > 1 && r.P(0.2) { // one without storage: it has nothing to do with any file
				sc.Clients[n-1].Dir = ""
			}
			if r.P(0.5) {
				sc.Pol.PErr, sc.Pol.MaxErrs = rt.Pick(r, []float64{0.02, 0.1, 0.5}), 20
				sc.Pol.ErrKinds = rt.Pick(r, errGroups)
			}
			if r.P(0.3) {
				sc.Pol.PKill, sc.Pol.MaxKills = rt.Pick(r, []float64{0.001, 0.01, 0.05}), 2
			}
			base, span := uint64(r.Intn(4)), 1+r.Intn(4)
			for f := 1 + r.Intn(3); f > 0; f-- {
				var ph Phase
				for k := 1 + r.Intn(3); k > 0; k-- {
					p := r.Intn(n)
					t := ops(r, sc, 0, p, 1+r.Intn(3), base, span)
					t.Proc = p
					ph.Tasks = append(ph.Tasks, t)
				}
				if r.P(0.3) {
					ph.Restart = []int{r.Intn(n)}
				}
				for k := r.Intn(3); k > 0 && sc.Clients[0].Ctor == ""; k-- {
					if a := damageAct(r, sc, r.Intn(n), base+uint64(r.Intn(span))); sc.Clients[a.C].Dir != "" {
						ph.Acts = append(ph.Acts, a)
					}
				}
				sc.Phases = append(sc.Phases, ph)
				if r.P(0.5) {
					base++
				}
			}
			if r.P(0.25) {
				sc.Phases[0].Acts = append(sc.Phases[0].Acts, Act{K: "dirfull", E: uint64(r.Intn(6)), L1: r.P(0.3)})
			}
			sc.X = r.U64() >> 1
		},
		Setup:      setup19,
		PhaseReady: func(r *Run, i int) { r.x.(*model19).own = nil },
		PhaseEnd:   end19,
	})
}

type model19 struct {
	keep map[string]foreignFile
	own  []map[string]bool // per process: the names of its coin
	made map[*fs.Node]int  // process that made a file
	byMe map[string]int    // names in use as temporaries
}

// procOf is the index of a process by name.
func (r *Run) procOf(p *rt.Proc) int {
	if p == nil {
		return -1
	}
	base := strings.SplitN(p.Name, "#", 2)[0]
	for i := range r.sc.Procs {
		if r.sc.Procs[i].Name == base {
			return i
		}
	}
	return -1
}

// sameCoin tells whether the clients of two processes are of the same coin and revision.
func (r *Run) sameCoin(i, k int) bool {
	a, b := &r.sc.Clients[r.sc.Procs[i].Clients[0]], &r.sc.Clients[r.sc.Procs[k].Clients[0]]
	return a.Name == b.Name && a.Rev == b.Rev
}

func (r *Run) dirOf(i int) string {
	c := &r.sc.Clients[r.sc.Procs[i].Clients[0]]
	return c.Dir
}

func (m *model19) names(r *Run, i int) map[string]bool {
	if m.own == nil {
		m.own = make([]map[string]bool, len(r.sc.Procs))
	}
	if m.own[i] == nil {
		c := &r.sc.Clients[r.sc.Procs[i].Clients[0]]
		own := map[string]bool{}
		if c.Dir != "" {
			for e := uint64(0); e <= maxEpoch; e++ {
				own[c.path(e, false)], own[c.path(e, true)] = true, true
			}
		}
		m.own[i] = own
	}
	return m.own[i]
}

func setup19(r *Run) {
	m := &model19{keep: map[string]foreignFile{}, made: map[*fs.Node]int{}}
	r.x = m
	g := rt.NewRand(r.sc.X)
	put := func(path string, b []byte, dir bool) {
		if r.fs.Node(path) == nil {
			r.fs.Put(path, b, dir)
		}
	}
	put(dir1, nil, true)
	c0 := r.sc.Clients[0]
	c0.Dir = dir1
	if c0.Ctor != "" {
		c0.Name, c0.Rev = c0.Ctor, 23
		if c0.Ctor == "CFX" {
			c0.Rev = 1
		}
	}
	other := []ClientSpec{c0, c0, c0, c0}
	other[0].Rev += 100
	other[1].Name += "X"
	other[2].Name = "X" + c0.Name
	other[3].Name = strings.ToLower(c0.Name)
	for _, o := range other {
		taken := false
		for i := range r.sc.Clients {
			taken = taken || r.sc.Clients[i].Name == o.Name && r.sc.Clients[i].Rev == o.Rev
		}
		for k := 0; k < 2 && !taken; k++ {
			e := uint64(g.Intn(5))
			put(o.path(e, false), hashBytes(g.U64()>>8, 64+g.Intn(64)), false)
			put(o.path(e, true), hashBytes(g.U64()>>8, 64), false)
		}
	}
	for _, p := range []string{dir1 + "/README", dir1 + "/wallet.dat", dir1 + "/cache", dir1 + "/cache-", dir1 + "/l1", dir1 + "/tmp/x", dir1 + "/cache-" + c0.Name, dir1 + "/cache-" + c0.Name + "-R", "/home/miner/.bashrc", "/tmp/file", "/work/data", dir1 + "/x.tmp", dir1 + "/lost.12345", dir1 + "/.hidden"} {
		for d := filepath.Dir(p); r.fs.Node(d) == nil; d = filepath.Dir(d) {
			put(d, nil, true)
		}
		put(p, []byte(p), false)
	}
	put(dir1+"/cache-dir", nil, true)
	for _, d := range []string{"/home", "/tmp", "/work"} {
		for _, p := range r.fs.List(d) {
			n := r.fs.Node(p)
			if n.Dir {
				m.keep[p] = foreignFile{node: n, mode: n.Mode}
				continue
			}
			m.keep[p] = foreignFile{n, append([]byte(nil), r.fs.Bytes(n)...), n.Mode}
		}
	}
	r.onAct = append(r.onAct, func(a *Act) {
		if a.K == "dirfull" { // somebody's directory under a name of the coin
			for _, p := range []string{a.Path, a.Path + "/x"} {
				if n := r.fs.Node(p); n != nil {
					m.keep[p] = foreignFile{node: n, mode: n.Mode}
					if !n.Dir {
						m.keep[p] = foreignFile{n, append([]byte(nil), r.fs.Bytes(n)...), n.Mode}
					}
				}
			}
		}
	})
	inside := func(i int, p string) bool {
		d := r.dirOf(i)
		return d != "" && strings.HasPrefix(p, d+"/")
	}
	// another coin's name: a cache name of one of the other processes' coins
	theirs := func(i int, p string) bool {
		for k := range r.sc.Procs {
			if k != i && m.names(r, k)[p] && !m.names(r, i)[p] {
				return true
			}
		}
		_, kept := m.keep[p]
		return kept
	}
	r.onEvent = append(r.onEvent, func(e fs.Event) {
		i := r.procOf(e.Proc)
		if i < 0 {
			return
		}
		what := fmt.Sprintf("%s (coin %s R%d): %s %s %s", e.Task, r.sc.Clients[i].Name, r.sc.Clients[i].Rev, e.Kind, e.Path, e.To)
		if e.Kind == "mkdir" {
			if d := r.dirOf(i); e.Path != d && !strings.HasPrefix(d, e.Path+"/") && !strings.HasPrefix(e.Path, d+"/") {
				r.fail("outside", "%s", what)
			}
			m.made[e.Node] = i
			return
		}
		paths := []string{e.Path}
		if e.To != "" {
			paths = append(paths, e.To)
		}
		for _, p := range paths {
			if !inside(i, p) {
				r.fail("outside", "%s", what)
			}
			if theirs(i, p) {
				r.fail("foreign", "%s: not its own file", what)
			}
		}
		if e.Kind == "create" {
			if _, ok := m.made[e.Node]; !ok {
				m.made[e.Node] = i
			}
			return
		}
		if k, ok := m.made[e.Node]; ok && !r.sameCoin(k, i) {
			r.fail("foreign", "%s: the file was made by a client of another coin", what)
		} else if !ok && !m.names(r, i)[e.Path] {
			r.fail("foreign", "%s: not a file of its own", what)
		}
		if e.Kind == "rename" && !m.names(r, i)[e.To] && theirs(i, e.To) {
			r.fail("foreign", "%s: not a name of its own", what)
		}
	})
	r.onOp = append(r.onOp, func(t *rt.Task, kind, path string) {
		i := r.procOf(t.Proc)
		if kind != "open" || i < 0 || !inside(i, path) || m.names(r, i)[path] {
			return
		}
		n := r.fs.Node(path)
		if n == nil || n.Dir {
			return
		}
		if k, ok := m.made[n]; ok && r.sameCoin(k, i) {
			return
		}
		r.fail("foreign", "%s opened %s, which is not its coin's file", t.Name, path)
	})
}

func end19(r *Run, i int) {
	m := r.x.(*model19)
	for p, k := range m.keep {
		n := r.fs.Node(p)
		switch {
		case n != k.node:
			r.fail("foreign", "phase %d: %s was removed or replaced", i, p)
		case n.Mode != k.mode:
			r.fail("foreign", "phase %d: the mode of %s was changed", i, p)
		case !n.Dir && !bytes.Equal(r.fs.Bytes(n), k.data):
			r.fail("foreign", "phase %d: the contents of %s were changed", i, p)
		}
	}
	for k, ps := range r.procs {
		c := &r.sc.Clients[r.sc.Procs[k].Clients[0]]
		if c.Ctor == "" || ps.p == nil || c.Dir == "" {
			continue
		}
		if home := ps.p.Home; !strings.HasPrefix(c.Dir, home+"/") {
			r.fail("home", "the storage directory of the shipped coin %s is %s, which is not in the home %s", c.Ctor, c.Dir, home)
		}
	}
}

// ---- C21: only complete files under the final names ---------------------------------------------------------

type model21 struct {
	seen map[*fs.Node]bool
	who  map[string]*ClientSpec
	key  map[string]string
}

func init() {
	register(&Check{
		ID:      "C21",
		Classes: "partial changed",
		Gen: func(r *rt.Rand, sc *Scenario) {
			switch r.Intn(3) {
			case 0:
				genCrash(r, sc, false)
			case 1:
				genErrors(r, sc)
				for i := range sc.Clients {
					if sc.Clients[i].Ctor != "" {
						sc.Clients[i] = light(r, dir1)
					}
				}
				for k := range sc.Phases {
					for j := range sc.Phases[k].Tasks {
						for o := range sc.Phases[k].Tasks[j].Ops {
							op := &sc.Phases[k].Tasks[j].Ops[o]
							op.Off %= sc.Clients[op.C].P.EpochLength
						}
					}
				}
			default:
				genProcs(r, sc)
			}
		},
		Setup: func(r *Run) {
			r.s.OnSwitch = func() { r.scan21("while running") }
			r.onOp = append(r.onOp, func(t *rt.Task, kind, path string) { r.scan21("after " + kind + " by " + t.Name) })
		},
		Quiesced: func(r *Run, i int) { r.scan21(fmt.Sprintf("at the end of phase %d", i)) },
	})
}

// scan21 checks every cache file the library has put under a final name.
func (r *Run) scan21(when string) {
	m, _ := r.x.(*model21)
	if m == nil {
		m = &model21{seen: map[*fs.Node]bool{}, who: map[string]*ClientSpec{}}
		r.x = m
		for i := range r.sc.Clients {
			c := &r.sc.Clients[i]
			for e := uint64(0); e <= 12; e++ {
				for _, l1 := range c.kinds() {
					m.who[c.path(e, l1)] = c
				}
			}
		}
	}
	for _, p := range r.fs.List(dir1) {
		c := m.who[p]
		if c == nil {
			continue
		}
		n := r.fs.Node(p)
		if n.Foreign || n.Dir || n.Link != "" {
			continue
		}
		e, l1, ok := c.epochOf(p, 12)
		if !ok {
			continue
		}
		if !bytes.Equal(r.fs.Bytes(n), c.full(e, l1)) {
			if m.seen[n] {
				r.fail("changed", "%s: the contents of %s are no longer those of a complete cache", when, p)
			} else {
				r.fail("partial", "%s: %s does not hold a complete cache", when, p)
			}
			n.Foreign = true // reported once
		} else {
			m.seen[n] = true
		}
	}
}

// ---- C22: temporaries ---------------------------------------------------------------------------------------

func init() {
	register(&Check{
		ID:      "C22",
		Classes: "left",
		Gen: func(r *rt.Rand, sc *Scenario) {
			if r.P(0.3) {
				genProcs(r, sc)
				sc.Pol.PKill, sc.Pol.MaxKills = 0, 0
				sc.Pol.PErr, sc.Pol.MaxErrs = rt.Pick(r, []float64{0.05, 0.3}), rt.Pick(r, []int{1, 3, 50})
			} else {
				genErrors(r, sc)
			}
			if sc.Pol.PErr > 0 && (sc.Pol.ErrKinds == "" || sc.Pol.ErrKinds == "remove") {
				sc.Pol.ErrKinds = rt.Pick(r, []string{"mmap", "munmap", "mlock", "rename", "truncate,write,fallocate", "open", "close", "msync,fsync", "create,mkdir", "stat", "rename,open,close,mmap,munmap,mlock,truncate,write,fallocate,msync,fsync,create,mkdir,stat,link"})
			}
			for k := range sc.Phases {
				for j := range sc.Phases[k].Acts {
					if a := &sc.Phases[k].Acts[j]; a.K == "deny" && a.Path == "remove" {
						a.Path = "rename"
					} else if a.Path == dir1 {
						a.K = "allow"
					}
				}
			}
		},
		Quiesced: func(r *Run, i int) {
			have := map[string]bool{}
			for k := range r.sc.Clients {
				c := &r.sc.Clients[k]
				if c.Dir == "" {
					continue
				}
				for e := uint64(0); e <= maxEpoch; e++ {
					for _, l1 := range c.kinds() {
						if have[c.path(e, l1)] = true; r.fs.Node(c.path(e, l1)) != nil && !r.fs.Node(c.path(e, l1)).Foreign && !r.whole(c, e, l1) {
							r.fail("left", "phase %d: after all work has finished %s is not a complete cache", i, c.path(e, l1))
						}
					}
				}
			}
			names := r.fs.List(dir1)
			sort.Strings(names)
			for _, p := range names {
				if n := r.fs.Node(p); !have[p] && !n.Foreign {
					r.fail("left", "phase %d: after all work has finished %s is left in the storage directory", i, p)
				}
			}
		},
	})
}
