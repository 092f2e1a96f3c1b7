//go:build go1.25

// Package rt is the core of the simulator: simulated processes and tasks, the
// seeded scheduler, decisions (recorded, and replayed from a plan), the
// simulated clock, garbage collection as an event, and package-level variables
// kept apart per simulated process.
//
// One run at a time. Exactly one task runs at a time; all others are parked on
// their own channel inside a testing/synctest bubble.
package rt

import (
	"fmt"
	"hash/fnv"
	"reflect"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"testing/synctest"
	"time"
	"unsafe"
)

func getg() uintptr

// ---- PRNG -------------------------------------------------------------------

// Rand is splitmix64: small, seedable, and independent of the Go release.
type Rand struct{ s uint64 }

func NewRand(seed uint64) *Rand { return &Rand{seed} }
func (r *Rand) U64() uint64 {
	r.s += 0x9e3779b97f4a7c15
	z := r.s
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
	z = (z ^ (z >> 27)) * 0x94d049bb133111eb
	return z ^ (z >> 31)
}
func (r *Rand) Intn(n int) int {
	if n <= 1 {
		return 0
	}
	return int(r.U64() % uint64(n))
}
func (r *Rand) Float() float64      { return float64(r.U64()>>11) / (1 << 53) }
func (r *Rand) P(p float64) bool    { return r.Float() < p }
func (r *Rand) Fork() *Rand         { return NewRand(r.U64()) }
func (r *Rand) Pick(xs []int) int   { return xs[r.Intn(len(xs))] }
func Pick[T any](r *Rand, xs []T) T { return xs[r.Intn(len(xs))] }

// ---- sites --------------------------------------------------------------------

// Sites maps a scheduling point's number to its position; set once by the harness.
var Sites []string
var siteByName map[string]int32

// Reached marks the scheduling points passed in any run of the search so far.
var Reached []bool

func SetSites(s []string) {
	Sites = s
	Reached = make([]bool, len(s))
	siteByName = map[string]int32{}
	for i, n := range s {
		siteByName[n] = int32(i)
	}
}

// ---- plans -------------------------------------------------------------------

// Dev is one deviation from the default execution: at the N-th time Task reaches
// the point At, do Act. The default execution runs the current task until it blocks
// or ends, then the lowest-numbered ready task, and injects nothing.
type Dev struct {
	Task string `json:"task"`
	At   string `json:"at"`
	N    int    `json:"n"`
	Act  string `json:"act"`
	Arg  string `json:"arg,omitempty"`
}

func (d Dev) String() string {
	return fmt.Sprintf("%s @ %s #%d: %s %s", d.Task, d.At, d.N, d.Act, d.Arg)
}

// Policy holds the knobs of a random run.
type Policy struct {
	Gap0      int     `json:"gap0"`       // first gap between preemptions at one site
	Growth    int     `json:"growth"`     // growth of that gap
	PSwitch   float64 `json:"p_switch"`   // a preemption point switches tasks
	POpSwitch float64 `json:"p_opswitch"` // an operation is a switch
	PGC       float64 `json:"p_gc"`       // per preemption point
	PKill     float64 `json:"p_kill"`
	PPower    float64 `json:"p_power"`
	PStall    float64 `json:"p_stall"`
	PErr      float64 `json:"p_err"`  // per operation
	PJump     float64 `json:"p_jump"` // per clock reading
	PFull     float64 `json:"p_full"` // disk-full toggles, per operation
	MaxKills  int     `json:"max_kills"`
	MaxStalls int     `json:"max_stalls"`
	MaxGC     int     `json:"max_gc"`
	MaxErrs   int     `json:"max_errs"`
	Strategy  string  `json:"strategy"`            // uniform, pct, sticky, starve
	ErrKinds  string  `json:"err_kinds,omitempty"` // restrict faults to these operation kinds, comma separated; empty: all
	StallIn   string  `json:"stall_in,omitempty"`  // stall only while inside this counted function, or at operations if "op"
	KillAtOps bool    `json:"kill_at_ops,omitempty"`
}

// ---- tasks and processes ---------------------------------------------------------

type taskState int

const (
	ready taskState = iota
	running
	blocked // on a simulated primitive
	native  // on a native channel, select or timer
	done
)

type siteCtr struct{ cnt, next int32 }

type Task struct {
	ID      int
	Name    string
	Proc    *Proc
	g       uintptr
	wake    chan struct{}
	state   taskState
	why     string
	ctr     []siteCtr
	counts  map[string]int
	killed  bool
	stalled bool
	prio    int
	spawnN  int
	dieHops int
	bg      bool
	fin     bool           // runs finalizers
	Inside  map[string]int // counted functions the task is inside of
	Steps   int64
	Ops     int64 // storage operations, since the harness last set it to zero
	faultOK bool
}

type Proc struct {
	ID       int
	Name     string
	Dead     bool
	DeadWhy  string
	Env      map[string]string
	Home     string
	Pid      int
	UserErr  bool
	randst   uint64
	sysst    uint64
	finSeq   int
	finTasks int
	globals  []reflect.Value
	inited   bool
	ExitCode int
	Exited   bool
	Calls    map[string]int // entries of counted functions
	OnKill   []func()
	OnEnter  func(fn string, args []interface{})
}

// Crash describes a task's panic, which in Go ends the whole process.
type Crash struct {
	Task, Proc, Msg, Where string
}

// ---- simulation -----------------------------------------------------------------

type Sim struct {
	Seed     uint64
	rng      *Rand
	Pol      Policy
	planMode bool
	plan     map[string]map[string][]Dev // task -> at -> sorted devs
	Rec      []Dev                       // deviations that happened, in order

	Procs    []*Proc
	tasks    []*Task
	idle     *Task
	schedG   uintptr
	want     *Task
	loaded   *Proc
	foreignQ []*Task
	mu       sync.Mutex
	byG      map[uintptr]*Task
	anon     int

	now      int64 // simulated nanoseconds since the epoch of the run
	wallOff  int64
	MaxSteps int64
	MaxOps   int64 // of one task, since its Ops was last reset
	maxOps   int64
	steps    int64
	switches int
	kills    int
	stalls   int
	gcs      int
	errs     int
	pctNext  int

	Crashes     []Crash
	Deadlock    string
	Livelock    string
	Unsupported string
	Misuse      []string

	loghash uint64
	ilhash  uint64 // hash of the switch sequence: the interleaving
	Trace   func(string)
	seq     int

	Counts map[string]int // fault kinds and probes that fired

	PowerLoss     func(seed uint64)
	OnOnlyStalled func()
	AfterOp       func(t *Task, kind, path string)
	OnSwitch      func()
	FaultsOff     bool
	NoPreempt     bool
	SetFull       func(bool)
	full          bool
	hot           []int32
	inMaps        []inMap
}

// S is the current run, cur the task that may run; cur is nil outside a run.
var (
	S   *Sim
	cur *Task
)

func Active() bool { return cur != nil && cur != S.idle }
func Cur() *Task   { return cur }
func CurProc() *Proc {
	if cur != nil && cur.Proc != nil {
		return cur.Proc
	}
	if S != nil && S.loaded != nil {
		return S.loaded
	}
	return nil
}

func NewSim(seed uint64, pol Policy, plan []Dev, planMode bool) *Sim {
	if Race {
		Acquire(unsafe.Pointer(&endRel))
	}
	s := &Sim{Seed: seed, rng: NewRand(seed), Pol: pol, planMode: planMode, byG: map[uintptr]*Task{},
		MaxSteps: 60_000_000_000, Counts: map[string]int{}, loghash: 14695981039346656037, ilhash: 14695981039346656037}
	if planMode {
		s.plan = map[string]map[string][]Dev{}
		for _, d := range plan {
			m := s.plan[d.Task]
			if m == nil {
				m = map[string][]Dev{}
				s.plan[d.Task] = m
			}
			m[d.At] = append(m[d.At], d)
		}
		for _, m := range s.plan {
			for _, l := range m {
				sort.SliceStable(l, func(i, j int) bool { return l[i].N < l[j].N })
			}
		}
	}
	s.idle = &Task{Name: "(scheduler)", ID: -1, counts: map[string]int{}}
	return s
}

func (s *Sim) Logf(format string, a ...interface{}) {
	raceOff()
	defer raceOn()
	line := fmt.Sprintf(format, a...)
	h := fnv.New64a()
	var b [8]byte
	for i := range b {
		b[i] = byte(s.loghash >> (8 * i))
	}
	h.Write(b[:])
	h.Write([]byte(line))
	s.loghash = h.Sum64()
	s.seq++
	if s.Trace != nil {
		s.Trace(fmt.Sprintf("%5d t=%-10d %s", s.seq, s.now, line))
	}
}
func (s *Sim) LogHash() uint64      { return s.loghash }
func (s *Sim) Interleaving() uint64 { return s.ilhash }
func (s *Sim) Seq() int             { return s.seq }
func (s *Sim) Now() int64           { return s.now }
func (s *Sim) Switches() int        { return s.switches }
func (s *Sim) Steps() int64         { return s.steps }
func (s *Sim) PeakOps() int64       { return s.maxOps }
func (s *Sim) Count(k string)       { s.Counts[k]++ }

func (s *Sim) NewProc(name string, randSeed uint64) *Proc {
	p := &Proc{ID: len(s.Procs), Name: name, Env: map[string]string{}, Calls: map[string]int{}, randst: randSeed, Pid: 1000 + 17*len(s.Procs)}
	p.Home = "/home/miner"
	p.Env["HOME"] = p.Home
	s.Procs = append(s.Procs, p)
	return p
}

func (s *Sim) Spawn(p *Proc, name string, fn func()) *Task {
	t := &Task{ID: len(s.tasks), Name: name, Proc: p, wake: make(chan struct{}, 1), counts: map[string]int{}, ctr: make([]siteCtr, len(Sites)), Inside: map[string]int{}}
	if !s.planMode {
		t.prio = s.rng.Intn(1000)
	}
	s.tasks = append(s.tasks, t)
	go func() {
		raceOff()
		g := getg()
		t.g = g
		s.mu.Lock()
		s.byG[g] = t
		s.mu.Unlock()
		<-t.wake
		raceOn()
		if Race {
			Acquire(unsafe.Pointer(&globRel))
			if t.fin {
				Acquire(unsafe.Pointer(&finRel))
			}
		}
		debug.SetPanicOnFault(true)
		defer func() {
			if !t.killed {
				if r := recover(); r != nil {
					s.panicked(t, r)
				}
			} else {
				recover()
			}
			if Race {
				ReleaseMerge(unsafe.Pointer(&endRel))
				if !t.bg || t.killed {
					ReleaseMerge(unsafe.Pointer(&joinRel))
				}
			}
			raceOff()
			s.mu.Lock()
			delete(s.byG, g)
			s.mu.Unlock()
			t.state = done
			t.Inside = nil
			raceOn()
		}()
		if t.killed {
			return
		}
		fn()
	}()
	return t
}

// Unsupported is panicked by simulated packages on calls they do not simulate.
type Unsupported string

// PanicInfo lets the file system explain faults on simulated mappings.
var ExplainFault func(addr uintptr) string

func (s *Sim) panicked(t *Task, r interface{}) {
	if u, ok := r.(Unsupported); ok {
		if s.Unsupported == "" {
			s.Unsupported = string(u)
		}
		s.kill(t.Proc, "unsupported call", t)
		return
	}
	msg := fmt.Sprint(r)
	if a, ok := r.(interface{ Addr() uintptr }); ok && ExplainFault != nil {
		if e := ExplainFault(a.Addr()); e != "" {
			msg = e
		} else {
			msg = "memory fault"
		}
	}
	where := topFrames(debug.Stack())
	s.Crashes = append(s.Crashes, Crash{t.Name, t.Proc.Name, msg, where})
	s.Logf("PANIC in %s: %s at %s", t.Name, msg, where)
	s.kill(t.Proc, "panic: "+msg, t)
}

// topFrames names the first repository functions on the stack.
func topFrames(st []byte) string {
	var out []string
	for _, l := range strings.Split(string(st), "\n") {
		if strings.HasPrefix(l, "github.com/sencha-dev/powkit/") && !strings.Contains(l, "verifharness") {
			l = strings.TrimPrefix(l, "github.com/sencha-dev/powkit/")
			if i := strings.LastIndex(l, "("); i > 0 {
				l = l[:i]
			}
			out = append(out, l)
			if len(out) == 3 {
				break
			}
		}
	}
	return strings.Join(out, " < ")
}

// ---- scheduling points ---------------------------------------------------------

// Y is called before every statement of the code under test.
func Y(site int32) {
	t := cur
	if t == nil {
		return
	}
	if t.g != getg() {
		foreign()
		t = cur
		if t == nil || t.g != getg() {
			return
		}
	}
	c := &t.ctr[site]
	c.cnt++
	if Race && c.cnt < 64 {
		ReleaseMerge(unsafe.Pointer(&finRel))
	}
	if c.cnt < c.next {
		return
	}
	t.slow(site, c)
}

// B is Y within a condition.
func B(site int32) bool {
	Y(site)
	return true
}

// inMap is a use of a map that a task is about to make.
type inMap struct {
	t     *Task
	m     uintptr // which keeps nothing from being collected
	write bool
}

type mapClash string

func (e mapClash) Error() string { return string(e) }
func (e mapClash) FatalError()   {}
func (e mapClash) RuntimeError() {}

// M precedes a statement that uses a map. If another task is about to use it too, nothing orders the two,
// and one of them writes it, they may do so at once, upon which the Go runtime ends the process.
func M(site int32, write bool, m interface{}) {
	t := cur
	if t == nil || t == S.idle {
		return
	}
	if t.g != getg() {
		foreign()
		if t = cur; t == nil || t.g != getg() {
			return
		}
	}
	p := uintptr((*[2]unsafe.Pointer)(unsafe.Pointer(&m))[1])
	if p == 0 || t.killed {
		return
	}
	S.clash(t, p, write)
	S.inMaps = append(S.inMaps, inMap{t, p, write})
	defer S.leaveMap(t)
	c := &t.ctr[site]
	c.cnt++
	if c.cnt < c.next {
		return
	}
	t.slow(site, c)
}

// MB is M for reads within a condition.
func MB(site int32, ms ...interface{}) bool {
	for _, m := range ms {
		M(site, false, m)
	}
	return true
}

func (s *Sim) clash(t *Task, p uintptr, write bool) {
	for _, o := range s.inMaps {
		if o.t == t || o.m != p || o.t.killed || !o.write && !write {
			continue
		}
		what := "fatal error: concurrent map writes"
		if !o.write || !write {
			what = "fatal error: concurrent map read and map write"
		}
		panic(mapClash(what))
	}
}

func (s *Sim) leaveMap(t *Task) {
	for i := len(s.inMaps) - 1; i >= 0; i-- {
		if s.inMaps[i].t == t {
			s.inMaps = append(s.inMaps[:i], s.inMaps[i+1:]...)
			return
		}
	}
}

// F counts an entry into a function of the code under test; the returned
// function, deferred, marks its end.
func F(name string, args ...interface{}) func() {
	t := cur
	if t == nil || t == S.idle || t.g != getg() {
		return nop
	}
	t.Proc.Calls[name]++
	if t.Proc.OnEnter != nil && !t.killed {
		t.Proc.OnEnter(name, args)
	}
	t.Inside[name]++
	return func() {
		if t.Inside != nil {
			t.Inside[name]--
		}
	}
}
func nop() {}

// SkipFn, when set, may stand in for a counted function: its body is not run when SkipFn returns true.
var SkipFn func(name string, args []interface{}) bool

func Skip(name string, args ...interface{}) bool { return SkipFn != nil && SkipFn(name, args) }

const never = int32(1<<31 - 1)

func (t *Task) slow(site int32, c *siteCtr) {
	s := S
	raceOff()
	defer raceOn()
	if t.killed {
		t.dieHops++
		c.next = c.cnt + 1000
		if t.dieHops > 100000 {
			runtime.Goexit()
		}
		return
	}
	first := c.next == 0
	if s.planMode {
		var act *Dev
		if m := s.plan[t.Name]; m != nil {
			l := m["s:"+Sites[site]]
			next := never
			for i := range l {
				if int32(l[i].N) == c.cnt {
					act = &l[i]
				} else if int32(l[i].N) > c.cnt {
					next = int32(l[i].N)
					break
				}
			}
			c.next = next
		} else {
			c.next = never
		}
		if c.next > c.cnt+(1<<20) {
			c.next = c.cnt + (1 << 20)
		}
		s.tick(int64(0))
		s.checkSteps(t, 1)
		if act != nil {
			s.Rec = append(s.Rec, *act)
			s.apply(t, *act)
		}
		return
	}
	// random mode
	p := &s.Pol
	r := s.rng
	if first {
		Reached[site] = true
		c.next = c.cnt + int32(r.Intn(p.Gap0))
		if p.Growth > 1 && r.P(0.2) {
			c.next += int32(r.Intn(200))
		}
		if c.next > c.cnt {
			return
		}
	}
	gap := int32(p.Gap0)
	if g := int64(c.cnt) * int64(p.Growth-1); g > int64(gap) {
		gap = int32(min(g, 1<<20))
	}
	c.next = c.cnt + 1 + int32(r.Intn(int(gap)))
	s.checkSteps(t, int64(c.next-c.cnt))
	if s.NoPreempt {
		return
	}
	dev := Dev{Task: t.Name, At: "s:" + Sites[site], N: int(c.cnt)}
	x := r.Float()
	k, pw, st := p.PGC+p.PKill, p.PGC+p.PKill+p.PPower, p.PGC+p.PKill+p.PPower+p.PStall
	switch {
	case x < p.PGC && s.gcs < p.MaxGC:
		dev.Act = "gc"
	case p.PGC <= x && x < k && s.kills < p.MaxKills && !s.FaultsOff:
		dev.Act = "kill"
	case k <= x && x < pw && s.kills < p.MaxKills && !s.FaultsOff:
		dev.Act, dev.Arg = "power", strconv.FormatUint(r.U64(), 10)
	case pw <= x && x < st && s.stalls < p.MaxStalls && !s.FaultsOff && s.mayStall(t, false):
		dev.Act = "stall"
	default:
		if s.Pol.Strategy == "pct" {
			if r.P(0.05) {
				t.prio = -r.Intn(1000)
			}
		} else if !r.P(p.PSwitch) {
			return
		}
		to := s.choose(t, true)
		if to == nil || to == t {
			return
		}
		dev.Act, dev.Arg = "switch", to.Name
	}
	s.Rec = append(s.Rec, dev)
	s.apply(t, dev)
}

func (s *Sim) mayStall(t *Task, op bool) bool {
	switch s.Pol.StallIn {
	case "":
		return true
	case "op":
		return op
	default:
		for _, f := range strings.Split(s.Pol.StallIn, ",") {
			if f == "op" && op || t.Inside[f] > 0 {
				return true
			}
		}
		return false
	}
}

func (s *Sim) tick(ns int64) { s.now += ns }

func (s *Sim) checkSteps(t *Task, n int64) {
	s.steps += n
	t.Steps += n
	why := ""
	switch {
	case s.Livelock != "":
	case s.steps > s.MaxSteps:
		why = fmt.Sprintf("task %s still running after %d steps", t.Name, s.steps)
	case s.MaxOps > 0 && t.Ops > s.MaxOps:
		why = fmt.Sprintf("task %s still running after %d storage operations for one call", t.Name, t.Ops)
	}
	if why != "" {
		s.Livelock = why
		s.Logf("LIVELOCK %s", s.Livelock)
		for _, p := range s.Procs {
			if !p.Dead {
				s.kill(p, "livelock", nil)
			}
		}
		runtime.Goexit()
	}
}

// apply carries out a recorded or planned deviation in task t.
func (s *Sim) apply(t *Task, d Dev) {
	switch d.Act {
	case "switch":
		to := s.byName(d.Arg)
		if to == nil || to.state != ready || to == t || to.stalled {
			return
		}
		s.Logf("switch %s -> %s at %s#%d", t.Name, to.Name, d.At, d.N)
		s.want = to
		t.park(ready, "")
	case "gc":
		s.gcs++
		s.Counts["gc"]++
		s.Logf("gc in %s at %s#%d", t.Name, d.At, d.N)
		s.CollectGarbage()
	case "kill":
		s.kills++
		s.Counts["kill"]++
		s.Logf("kill %s in %s at %s#%d", t.Proc.Name, t.Name, d.At, d.N)
		s.kill(t.Proc, "killed", t)
		runtime.Goexit()
	case "power":
		s.kills++
		s.Counts["power_loss"]++
		seed, _ := strconv.ParseUint(d.Arg, 10, 64)
		s.Logf("power loss in %s at %s#%d", t.Name, d.At, d.N)
		for _, p := range s.Procs {
			if !p.Dead {
				s.kill(p, "power loss", t)
			}
		}
		if s.PowerLoss != nil {
			s.PowerLoss(seed)
		}
		runtime.Goexit()
	case "stall":
		s.stalls++
		s.Counts["stall"]++
		s.Logf("stall %s at %s#%d", t.Name, d.At, d.N)
		t.stalled = true
		t.park(ready, "stalled")
	case "jump":
		v, _ := strconv.ParseInt(d.Arg, 10, 64)
		s.wallOff += v
		s.Counts["clock_jump"]++
		s.Logf("wall clock jump %d", v)
	case "full":
		s.full = d.Arg == "1"
		s.Counts["disk_full_"+d.Arg]++
		s.Logf("disk full %s", d.Arg)
		if s.SetFull != nil {
			s.SetFull(s.full)
		}
	}
}

// JumpClock sets the wall clock, as an act of the scenario.
func (s *Sim) JumpClock(by int64) { s.wallOff += by }

func (s *Sim) byName(n string) *Task {
	for _, t := range s.tasks {
		if t.Name == n && t.state != done {
			return t
		}
	}
	return nil
}

// park gives up the processor. It returns when the scheduler picks t again.
func (t *Task) park(st taskState, why string) {
	t.state, t.why = st, why
	if Race {
		ReleaseMerge(unsafe.Pointer(&finRel))
	}
	raceOff()
	<-t.wake
	raceOn()
	if t.killed {
		runtime.Goexit()
	}
}

// foreign is a scheduling point reached by a goroutine that is not the current task:
// one that was blocked natively and has been woken, or one the simulator did not start.
func foreign() {
	s := S
	g := getg()
	if g == s.schedG {
		return
	}
	raceOff()
	s.mu.Lock()
	t := s.byG[g]
	if t == nil {
		s.anon++
		t = &Task{ID: len(s.tasks) + 100000, Name: "anon" + strconv.Itoa(s.anon), Proc: s.loaded, wake: make(chan struct{}, 1), counts: map[string]int{}, ctr: make([]siteCtr, len(Sites)), Inside: map[string]int{}, g: g, bg: true}
		s.byG[g] = t
	}
	t.state = ready
	s.foreignQ = append(s.foreignQ, t)
	s.mu.Unlock()
	<-t.wake
	raceOn()
	if t.killed {
		runtime.Goexit()
	}
}

func (s *Sim) mergeForeign() {
	s.mu.Lock()
	q := s.foreignQ
	s.foreignQ = nil
	s.mu.Unlock()
	for _, t := range q {
		known := false
		for _, x := range s.tasks {
			if x == t {
				known = true
			}
		}
		if !known {
			t.ID = len(s.tasks)
			s.tasks = append(s.tasks, t)
		}
	}
}

// choose picks a ready task; from is the task giving way (included if stay).
func (s *Sim) choose(from *Task, stay bool) *Task {
	var c []*Task
	for _, t := range s.tasks {
		if t.stalled {
			continue
		}
		if t.state == ready || (stay && t == from) {
			c = append(c, t)
		}
	}
	if len(c) == 0 {
		return nil
	}
	switch s.Pol.Strategy {
	case "pct":
		best := c[0]
		for _, t := range c[1:] {
			if t.prio > best.prio {
				best = t
			}
		}
		return best
	case "starve":
		// one task, fixed by the seed, runs only when nothing else can
		v := int(s.Seed % uint64(max(2, len(s.tasks))))
		var d []*Task
		for _, t := range c {
			if t.ID != v {
				d = append(d, t)
			}
		}
		if len(d) > 0 {
			c = d
		}
	}
	return c[s.rng.Intn(len(c))]
}

func (s *Sim) count(t *Task, at string) int {
	t.counts[at]++
	return t.counts[at]
}

// pickNext decides who runs after prev blocked, ended, or asked for a switch.
func (s *Sim) pickNext(prev *Task) *Task {
	if w := s.want; w != nil {
		s.want = nil
		if w.state == ready && !w.stalled && !w.killed {
			return w
		}
	}
	var def *Task
	for _, t := range s.tasks {
		if t.state == ready && !t.stalled {
			def = t
			break
		}
	}
	if def == nil {
		return nil
	}
	name, at := "(start)", "b"
	var n int
	if prev != nil {
		name = prev.Name
		n = s.count(prev, "b")
	} else {
		n = s.count(s.idle, "b")
	}
	if s.planMode {
		for _, d := range s.plan[name][at] {
			if d.N == n && d.Act == "switch" {
				if to := s.byName(d.Arg); to != nil && to.state == ready && !to.stalled {
					s.Rec = append(s.Rec, d)
					return to
				}
			}
		}
		return def
	}
	to := s.choose(nil, false)
	if to == nil {
		return def
	}
	if to != def {
		s.Rec = append(s.Rec, Dev{Task: name, At: at, N: n, Act: "switch", Arg: to.Name})
	}
	return to
}

// RunPhase runs until every task has ended or nothing can run.
func (s *Sim) RunPhase() {
	// the scheduler's own hand-overs order nothing; what a phase has done is known to the next
	raceOff()
	defer func() {
		raceOn()
		if Race {
			Acquire(unsafe.Pointer(&joinRel))
		}
	}()
	s.schedG = getg()
	cur = s.idle
	var prev *Task
	idleSleeps, restSleeps := 0, 0
	for {
		s.mergeForeign()
		if dying := s.nextDying(); dying != nil {
			s.resume(dying)
			continue
		}
		t := s.pickNext(prev)
		if t == nil {
			alive, stalled, nat, fg := 0, 0, 0, 0
			for _, x := range s.tasks {
				if x.state != done {
					alive++
					if !x.bg && !(x.state == native && (x.killed || x.Proc.Dead)) {
						fg++
					}
					if x.stalled {
						stalled++
					}
					if x.state == native && !x.killed {
						nat++
					}
				}
			}
			if alive == 0 {
				break
			}
			if stalled > 0 {
				if s.OnOnlyStalled != nil {
					s.OnOnlyStalled()
				}
				for _, x := range s.tasks {
					x.stalled = false
				}
				s.Logf("unstall")
				continue
			}
			if nat > 0 && idleSleeps < 40 && (fg > 0 || restSleeps < 60) {
				// timers may be pending: let simulated time pass
				if fg == 0 {
					restSleeps++
				}
				time.Sleep(time.Millisecond << min(idleSleeps, 22))
				idleSleeps++
				continue
			}
			if fg == 0 {
				break // what is left waits for work that may never come
			}
			var bl []string
			live := false
			for _, x := range s.tasks {
				if x.state != done && !(x.state == native && (x.killed || x.Proc.Dead)) {
					live = true
					bl = append(bl, x.Name+" on "+x.why)
				}
			}
			if live {
				s.Deadlock = strings.Join(bl, "; ")
				s.Logf("DEADLOCK %s", s.Deadlock)
				for _, p := range s.Procs {
					if !p.Dead {
						s.kill(p, "deadlock", nil)
					}
				}
				if s.nextDying() != nil {
					continue
				}
			}
			break
		}
		idleSleeps = 0
		if t != prev {
			s.switches++
			s.ilhash = (s.ilhash ^ uint64(t.ID+1)) * 1099511628211
			if prev != nil {
				s.ilhash = (s.ilhash ^ uint64(prev.lastPoint())) * 1099511628211
			}
			if s.OnSwitch != nil {
				s.OnSwitch()
			}
		}
		s.resume(t)
		prev = t
	}
	s.loadGlobals(nil)
	cur = nil
}

func (t *Task) lastPoint() int64 { return t.Steps + int64(len(t.counts)) }

func (s *Sim) nextDying() *Task {
	for _, t := range s.tasks {
		if t.killed && (t.state == ready || t.state == blocked) {
			return t
		}
	}
	return nil
}

func (s *Sim) resume(t *Task) {
	s.loadGlobals(t.Proc)
	t.state = running
	cur = t
	t.wake <- struct{}{}
	synctest.Wait()
	cur = s.idle
	if t.state == running {
		t.state, t.why = native, "native channel, select or timer"
	}
}

// ---- simulated primitives ---------------------------------------------------------

// WaitQ is a queue of tasks blocked on a simulated primitive.
type WaitQ struct {
	q  []*Task
	tk []*Ticket
}

// Wait blocks the current task until woken.
func (w *WaitQ) Wait(why string) {
	t := cur
	if t == nil || t == S.idle {
		panic(Unsupported("blocking on " + why + " outside a simulated task"))
	}
	w.q = append(w.q, t)
	t.park(blocked, why)
}

// WakeAll makes all waiters ready.
func (w *WaitQ) WakeAll() {
	for _, t := range w.q {
		if t.state == blocked {
			t.state = ready
		}
	}
	w.q = nil
	for _, k := range w.tk {
		k.wake()
	}
	w.tk = nil
}

func (k *Ticket) wake() {
	k.woken = true
	if k.t.state == blocked {
		k.t.state = ready
	}
}

// WakeOne makes one waiter ready, in order.
func (w *WaitQ) WakeOne() {
	if len(w.tk) > 0 {
		k := w.tk[0]
		w.tk = w.tk[1:]
		k.wake()
		return
	}
	for len(w.q) > 0 {
		t := w.q[0]
		w.q = w.q[1:]
		if t.state == blocked {
			t.state = ready
			return
		}
	}
}
func (w *WaitQ) Len() int { return len(w.q) }

// Ticket is a place in a queue taken before blocking.
type Ticket struct {
	w     *WaitQ
	t     *Task
	woken bool
}

// Join takes a place in the queue; the task blocks only at Ticket.Wait.
func (w *WaitQ) Join() *Ticket {
	k := &Ticket{w: w, t: cur}
	w.tk = append(w.tk, k)
	return k
}

// Wait blocks until the ticket's turn has come.
func (k *Ticket) Wait(why string) {
	for !k.woken {
		k.t.park(blocked, why)
	}
}

// ensure makes the calling goroutine the current task, if it belongs to the run.
func ensure() *Task {
	t := cur
	if t == nil {
		return nil
	}
	if t.g != getg() {
		foreign()
		t = cur
		if t == nil || t == S.idle || t.g != getg() {
			return nil
		}
	}
	return t
}

// Ensure is for simulated packages: nil means the caller is not a simulated task.
func Ensure() *Task { return ensure() }

// Killed reports whether the current task's process is dead: it may only unwind.
func Killed() bool { t := cur; return t != nil && t.killed }

// Point is a scheduling point of a simulated primitive.
func Point(kind string) {
	t := ensure()
	if t == nil || t.killed {
		return
	}
	S.op(t, kind, "", nil)
}

// Op announces a storage operation. The error it returns is the injected one.
// errs are the injectable errors for the kind.
func Op(kind, path string, errs []string) string {
	t := ensure()
	if t == nil {
		return ""
	}
	if t.killed {
		return "DEAD"
	}
	return S.op(t, kind, path, errs)
}

func (s *Sim) op(t *Task, kind, path string, errs []string) string {
	raceOff()
	defer raceOn()
	at := "o:" + kind
	n := s.count(t, at)
	s.tick(20_000)
	t.Ops++
	s.maxOps = max(s.maxOps, t.Ops)
	s.checkSteps(t, 1)
	inj := ""
	if s.planMode {
		for _, d := range s.plan[t.Name][at] {
			if d.N == n {
				s.Rec = append(s.Rec, d)
				if d.Act == "err" {
					inj = d.Arg
				} else {
					s.apply(t, d)
				}
			}
		}
	} else if !s.NoPreempt {
		p := &s.Pol
		r := s.rng
		do := func(act, arg string) {
			d := Dev{Task: t.Name, At: at, N: n, Act: act, Arg: arg}
			s.Rec = append(s.Rec, d)
			if act != "err" {
				s.apply(t, d)
			}
		}
		if len(errs) > 0 && p.PFull > 0 && !s.FaultsOff && r.P(p.PFull) {
			if s.full {
				do("full", "0")
			} else {
				do("full", "1")
			}
		}
		boost := 1.0
		if len(errs) > 0 {
			boost = 4
		}
		switch {
		case p.PKill > 0 && s.kills < p.MaxKills && !s.FaultsOff && r.P(p.PKill*boost):
			do("kill", "")
		case p.PPower > 0 && s.kills < p.MaxKills && !s.FaultsOff && r.P(p.PPower*boost):
			do("power", strconv.FormatUint(r.U64(), 10))
		case p.PGC > 0 && s.gcs < p.MaxGC && r.P(p.PGC*boost):
			do("gc", "")
		case p.PStall > 0 && s.stalls < p.MaxStalls && !s.FaultsOff && s.mayStall(t, len(errs) > 0 && kind != "munmap" && kind != "close") && r.P(p.PStall*boost):
			do("stall", "")
		}
		if kind == "now" && p.PJump > 0 && !s.FaultsOff && r.P(p.PJump) {
			mag := int64(1) << uint(r.Intn(58))
			if r.P(0.5) {
				mag = -mag
			}
			do("jump", strconv.FormatInt(mag, 10))
		}
		if len(errs) > 0 && p.PErr > 0 && s.errs < p.MaxErrs && !s.FaultsOff && kindIn(p.ErrKinds, kind) && r.P(p.PErr) {
			inj = errs[r.Intn(len(errs))]
			do("err", inj)
		}
		if r.P(p.POpSwitch) {
			if to := s.choose(t, true); to != nil && to != t {
				do("switch", to.Name)
			}
		}
	}
	if inj != "" {
		s.errs++
		s.Counts["err_"+kind]++
	}
	if len(errs) > 0 {
		s.Logf("%s %s %s %s", t.Name, kind, path, inj)
	}
	return inj
}

func kindIn(list, k string) bool {
	if list == "" {
		return true
	}
	for _, x := range strings.Split(list, ",") {
		if x == k {
			return true
		}
	}
	return false
}

// Done is called after a storage operation has taken effect.
func Done(kind, path string) {
	if S != nil && S.AfterOp != nil && cur != nil && cur != S.idle && !cur.killed {
		S.AfterOp(cur, kind, path)
	}
}

// Go starts a task for a go statement of the code under test.
func Go(fn func()) {
	t := ensure()
	if t == nil {
		go fn()
		return
	}
	if t.killed {
		return
	}
	t.spawnN++
	n := S.Spawn(t.Proc, t.Name+"/g"+strconv.Itoa(t.spawnN), fn)
	n.bg = true
	S.Logf("%s starts %s", t.Name, n.Name)
	S.op(t, "go", "", nil)
}

// Gosched is a voluntary switch: the default execution stays, plans and random runs may move.
func Gosched() {
	t := ensure()
	if t == nil || t.killed {
		return
	}
	// A spinning task must not run alone for ever: move to the next ready task.
	s := S
	var nxt *Task
	for i := 1; i <= len(s.tasks); i++ {
		x := s.tasks[(t.ID+i)%len(s.tasks)]
		if x.state == ready && !x.stalled {
			nxt = x
			break
		}
	}
	s.op(t, "gosched", "", nil)
	if nxt != nil && nxt.state == ready {
		s.want = nxt
		t.park(ready, "")
	}
}

// Exit ends the current simulated process.
func Exit(code int) {
	t := ensure()
	if t == nil {
		panic(Unsupported("os.Exit outside a simulated task"))
	}
	if !t.killed {
		t.Proc.ExitCode, t.Proc.Exited = code, true
		S.Logf("%s exits %d", t.Proc.Name, code)
		S.kill(t.Proc, "exit", t)
	}
	runtime.Goexit()
}

// Kill ends a process; its tasks unwind without effect.
func (s *Sim) Kill(p *Proc, why string) { s.kill(p, why, cur) }

func (s *Sim) kill(p *Proc, why string, self *Task) {
	if p.Dead {
		return
	}
	p.Dead, p.DeadWhy = true, why
	for _, t := range s.tasks {
		if t.Proc == p && t.state != done {
			t.killed = true
			t.stalled = false
		}
	}
	for _, f := range p.OnKill {
		f()
	}
}

// ---- clock and randomness -----------------------------------------------------------

// Clock returns the monotonic reading and the wall offset, and advances time a little, so
// that two readings always differ.
func Clock() (mono, wallOff int64) {
	t := ensure()
	if t == nil {
		return 0, 0
	}
	if !t.killed {
		S.op(t, "now", "", nil)
	}
	S.tick(1 + int64(S.seq%7))
	return S.now, S.wallOff
}

// ProcRand draws from the current process's own generator.
func ProcRand() uint64 {
	p := CurProc()
	if p == nil {
		return 4
	}
	r := Rand{p.randst}
	v := r.U64()
	p.randst = r.s
	return v
}
func SetProcRand(seed uint64) {
	if p := CurProc(); p != nil {
		p.randst = seed
	}
}

// SysRand draws from the system's entropy as the process sees it: never equal in two processes.
func SysRand() uint64 {
	p := CurProc()
	if p == nil {
		return 4
	}
	r := Rand{p.sysst}
	if p.sysst == 0 {
		r.s = uint64(p.ID+1)*0x9e3779b97f4a7c15 ^ S.Seed
	}
	v := r.U64()
	p.sysst = r.s
	return v
}

// Sleep passes simulated time: others run, and the clock moves.
func Sleep(ns int64) {
	t := ensure()
	if t == nil || t.killed {
		return
	}
	if ns < 0 {
		ns = 0
	}
	end := S.now + ns
	for i := 0; S.now < end && i < 50; i++ {
		S.tick((ns + 24) / 25)
		Gosched()
	}
	S.op(t, "sleep", "", nil)
}

// SetPanicOnFault mirrors debug.SetPanicOnFault for the current task. The simulator turns every
// memory fault into a panic; Recover refuses to hide one from a task that did not ask for it.
func SetPanicOnFault(v bool) bool {
	t := ensure()
	if t == nil {
		return false
	}
	o := t.faultOK
	t.faultOK = v
	return o
}

// Recover receives what recover() returned in the code under test.
func Recover(r interface{}) interface{} {
	t := cur
	if r == nil || t == nil || t == S.idle || t.killed {
		return r
	}
	if _, ok := r.(Unsupported); ok {
		panic(r)
	}
	if f, ok := r.(fatalError); ok {
		S.panicked(t, f)
		runtime.Goexit()
	}
	if _, ok := r.(interface{ Addr() uintptr }); ok && !t.faultOK {
		S.panicked(t, r) // in reality: an unrecoverable fatal error
		runtime.Goexit()
	}
	return r
}

type fatalError interface {
	error
	FatalError()
}

// SimRand draws a choice that belongs to the environment, derived from the process's
// generator state so that plans replay it.
func SimRand(n int) int { return int(ProcRand() % uint64(max(1, n))) }

// ---- garbage collection ------------------------------------------------------------

type finRec struct {
	sim *Sim
	p   *Proc
	id  int
	fn  reflect.Value
	arg reflect.Value
}

var (
	finMu      sync.Mutex
	finPending []finRec
)

// SetFinalizer has the real collector tell when obj is unreachable; the finalizer itself then
// runs as a simulated task.
func SetFinalizer(obj, fin interface{}) {
	t := ensure()
	if t == nil || fin == nil {
		runtime.SetFinalizer(obj, nil)
		return
	}
	if t.killed {
		return
	}
	s, p := S, t.Proc
	id := p.finSeq
	p.finSeq++
	fv := reflect.ValueOf(fin)
	ft := reflect.FuncOf([]reflect.Type{reflect.TypeOf(obj)}, nil, false)
	runtime.SetFinalizer(obj, nil)
	runtime.SetFinalizer(obj, reflect.MakeFunc(ft, func(a []reflect.Value) []reflect.Value {
		finMu.Lock()
		finPending = append(finPending, finRec{s, p, id, fv, a[0]})
		finMu.Unlock()
		return nil
	}).Interface())
}

type sentinel struct{ p [64]byte }

func gcOnce() {
	var hit atomic.Bool
	x := new(sentinel)
	runtime.SetFinalizer(x, func(*sentinel) { hit.Store(true) })
	x = nil
	for i := 0; !hit.Load(); i++ {
		runtime.GC()
		for j := 0; j < 2000 && !hit.Load(); j++ {
			runtime.Gosched()
		}
		if i > 200 {
			panic("powsim: finalizer goroutine does not run")
		}
	}
}

// CollectGarbage runs the collector and starts finalizer tasks for what it found.
func (s *Sim) CollectGarbage() {
	gcOnce()
	gcOnce()
	finMu.Lock()
	var mine []finRec
	for _, f := range finPending {
		if f.sim == s && !f.p.Dead {
			mine = append(mine, f)
		}
	}
	finPending = nil
	finMu.Unlock()
	sort.Slice(mine, func(i, j int) bool {
		if mine[i].p.ID != mine[j].p.ID {
			return mine[i].p.ID < mine[j].p.ID
		}
		return mine[i].id < mine[j].id
	})
	for i := 0; i < len(mine); {
		j := i
		for j < len(mine) && mine[j].p == mine[i].p {
			j++
		}
		batch := mine[i:j]
		p := mine[i].p
		p.finTasks++
		s.Counts["finalizers"] += len(batch)
		s.Logf("finalizers %s: %d", p.Name, len(batch))
		t := s.Spawn(p, p.Name+"/fin"+strconv.Itoa(p.finTasks), func() {
			for k := range batch {
				f := batch[k]
				batch[k] = finRec{}
				f.fn.Call([]reflect.Value{f.arg})
			}
		})
		t.bg, t.fin = true, true
		i = j
	}
}

// DropFinalizers forgets everything collected so far (between runs).
func DropFinalizers() {
	finMu.Lock()
	finPending = nil
	finMu.Unlock()
}

// ---- package-level variables per process ----------------------------------------------

type globalSet struct {
	pkg    string
	order  int
	ptrs   []reflect.Value
	reinit func()
}

var globalSets []globalSet

// RegisterGlobals is called by generated code at package initialisation. order is the package's position
// in dependency order.
func RegisterGlobals(order int, pkg string, reinit func(), ptrs ...interface{}) {
	g := globalSet{pkg: pkg, order: order, reinit: reinit}
	for _, p := range ptrs {
		g.ptrs = append(g.ptrs, reflect.ValueOf(p).Elem())
	}
	globalSets = append(globalSets, g)
	sort.SliceStable(globalSets, func(i, j int) bool { return globalSets[i].order < globalSets[j].order })
}

func (s *Sim) loadGlobals(p *Proc) {
	if Race && (p == nil || s.loaded != nil && s.loaded != p) {
		if p != nil {
			s.Unsupported = "a second process under race detection"
		}
		return
	}
	if s.loaded == p {
		return
	}
	if l := s.loaded; l != nil {
		k := 0
		for _, g := range globalSets {
			for _, v := range g.ptrs {
				l.globals[k].Set(v)
				k++
			}
		}
	}
	s.loaded = p
	if p == nil {
		return
	}
	if !p.inited {
		p.inited = true
		for _, g := range globalSets {
			for _, v := range g.ptrs {
				p.globals = append(p.globals, reflect.New(v.Type()).Elem())
			}
		}
		c := cur
		cur = nil
		for _, g := range globalSets {
			for _, v := range g.ptrs {
				v.SetZero()
			}
		}
		for _, g := range globalSets {
			g.reinit()
		}
		cur = c
		releaseGlobals()
		return
	}
	k := 0
	for _, g := range globalSets {
		for _, v := range g.ptrs {
			v.Set(p.globals[k])
			k++
		}
	}
}

// MapIterator walks a map in an order that the run decides.
type MapIterator struct {
	K, V interface{}
	m    reflect.Value
	keys []reflect.Value
}

// MapIter starts a walk over m.
func MapIter(m interface{}) *MapIterator {
	v := reflect.ValueOf(m)
	return &MapIterator{m: v, keys: orderedKeys(v)}
}

// Next moves to the next key that is still in the map.
func (it *MapIterator) Next() bool {
	if t := cur; t != nil && t != S.idle && t.g == getg() && !t.killed {
		S.clash(t, it.m.Pointer(), false)
	}
	for len(it.keys) > 0 {
		k := it.keys[0]
		it.keys = it.keys[1:]
		if v := it.m.MapIndex(k); v.IsValid() {
			it.K, it.V = k.Interface(), v.Interface()
			return true
		}
	}
	return false
}

func orderedKeys(v reflect.Value) []reflect.Value {
	keys := v.MapKeys()
	sort.Slice(keys, func(i, j int) bool { return lessKey(keys[i], keys[j]) })
	if n := len(keys); n > 1 && Active() {
		for i := n - 1; i > 0; i-- {
			j := SimRand(i + 1)
			keys[i], keys[j] = keys[j], keys[i]
		}
	}
	return keys
}

// MapKeys returns m's keys as a slice, in an order that the run decides.
func MapKeys(m interface{}) interface{} {
	v := reflect.ValueOf(m)
	out := reflect.MakeSlice(reflect.SliceOf(v.Type().Key()), 0, v.Len())
	return reflect.Append(out, orderedKeys(v)...).Interface()
}

func lessKey(a, b reflect.Value) bool {
	switch a.Kind() {
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		return a.Int() < b.Int()
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uintptr:
		return a.Uint() < b.Uint()
	case reflect.String:
		return a.String() < b.String()
	}
	return fmt.Sprint(a.Interface()) < fmt.Sprint(b.Interface())
}

// What the race detector is told: the end of every task happens before the next run, the end of a caller's
// task before the next phase, a process's initialisation before its tasks, everything before a finalizer.
var endRel, joinRel, globRel, finRel uint64

func releaseGlobals() {
	if Race {
		raceOn()
		ReleaseMerge(unsafe.Pointer(&globRel))
		raceOff()
	}
}

// Finish ends the run: nothing of it may be called afterwards.
func (s *Sim) Finish() {
	cur = nil
	S = nil
	DropFinalizers()
}

// Leftover counts the background tasks of a process that have not ended.
func (s *Sim) Leftover(p *Proc) int {
	n := 0
	for _, t := range s.tasks {
		if t.bg && t.Proc == p && t.state != done && !t.killed {
			n++
		}
	}
	return n
}

// Stop ends what has not ended, as far as it can be ended.
func (s *Sim) Stop() {
	for _, p := range s.Procs {
		if !p.Dead {
			s.kill(p, "the run is over", nil)
		}
	}
	raceOff()
	defer raceOn()
	s.schedG = getg()
	cur = s.idle
	for i := 0; i < 1_000_000; i++ {
		s.mergeForeign()
		t := s.nextDying()
		if t == nil {
			break
		}
		s.resume(t)
	}
	cur = nil
}

// Alive lists tasks that have not ended.
func (s *Sim) Alive() []string {
	var out []string
	for _, t := range s.tasks {
		if t.state != done {
			out = append(out, t.Name+" ("+t.why+")")
		}
	}
	return out
}

// StalledTasks lists the stalled tasks.
func (s *Sim) StalledTasks() []string {
	var out []string
	for _, t := range s.tasks {
		if t.stalled {
			out = append(out, t.Name)
		}
	}
	return out
}
