//go:build go1.25

// Package verifharness runs powkit's clients inside the simulator and judges what they do.
package verifharness

import (
	"bytes"
	"encoding/binary"
	"encoding/json"
	"fmt"
	"path/filepath"
	"reflect"
	"sort"
	"strings"
	"testing"
	"testing/synctest"
	"unsafe"

	"github.com/sencha-dev/powkit/ethash"
	"github.com/sencha-dev/powkit/firopow"
	"github.com/sencha-dev/powkit/internal/dag"
	"github.com/sencha-dev/powkit/kawpow"
	"github.com/sencha-dev/powkit/octopus"

	"powsim/fs"
	"powsim/ref"
	"powsim/rt"
	"runtime"
)

// ---- scenarios ------------------------------------------------------------------

// ClientSpec is one client of a simulated process.
type ClientSpec struct {
	Kind   string     `json:"kind"`
	Ctor   string     `json:"ctor,omitempty"` // a shipped constructor
	Name   string     `json:"name,omitempty"`
	Rev    int        `json:"rev,omitempty"`
	Dir    string     `json:"dir,omitempty"`
	Caches int        `json:"caches,omitempty"`
	Lock   bool       `json:"lock,omitempty"`
	Small  bool       `json:"small,omitempty"` // a shipped coin, with the sizes of P
	NoDisk bool       `json:"no_disk,omitempty"`
	P      ref.Params `json:"p"`
}

// ProcSpec is a simulated process.
type ProcSpec struct {
	Name    string   `json:"name"`
	Rand    uint64   `json:"rand"`
	Home    string   `json:"home,omitempty"`
	UserErr bool     `json:"user_err,omitempty"`
	Clients []int    `json:"clients"`
	Args    []string `json:"args,omitempty"`
	Late    bool     `json:"late,omitempty"` // each task makes clients of its own when it first needs them
}

// Op is one step of a task.
type Op struct {
	K     string `json:"k"`
	C     int    `json:"c"`
	E     uint64 `json:"e,omitempty"` // epoch
	Off   uint64 `json:"off,omitempty"`
	Nonce uint64 `json:"nonce,omitempty"`
	Hash  uint64 `json:"hash,omitempty"`
	V     int    `json:"v,omitempty"`
	M     uint64 `json:"m,omitempty"`
	Act   *Act   `json:"act,omitempty"`
}

// Act is something the world does: to the disk, or to the clock.
type Act struct {
	K    string `json:"k"`
	C    int    `json:"c,omitempty"` // client spec, for its files
	E    uint64 `json:"e,omitempty"`
	L1   bool   `json:"l1,omitempty"`
	Path string `json:"path,omitempty"`
	Arg  string `json:"arg,omitempty"`
	N    int64  `json:"n,omitempty"`
}

// TaskSpec is a task of a phase.
type TaskSpec struct {
	Proc int  `json:"proc"`
	Ops  []Op `json:"ops"`
}

// Phase runs its tasks at the same time, to the end.
type Phase struct {
	Acts    []Act      `json:"acts,omitempty"`
	Restart []int      `json:"restart,omitempty"` // processes that exit and start again before the phase
	Tasks   []TaskSpec `json:"tasks,omitempty"`
	Calm    bool       `json:"calm,omitempty"`  // no faults
	Quiet   bool       `json:"quiet,omitempty"` // no faults and no preemption
	GC      bool       `json:"gc,omitempty"`    // collect garbage afterwards
	Drop    bool       `json:"drop,omitempty"`  // drop the clients before that
	Tag     string     `json:"tag,omitempty"`
}

// Scenario is what a run does; the schedule and the faults come from the seed or the plan.
type Scenario struct {
	Check   string       `json:"check"`
	Pol     rt.Policy    `json:"pol"`
	Clients []ClientSpec `json:"clients"`
	Procs   []ProcSpec   `json:"procs"`
	Phases  []Phase      `json:"phases"`
	X       uint64       `json:"x,omitempty"`
}

func (sc *Scenario) clone() *Scenario {
	b, _ := json.Marshal(sc)
	var c Scenario
	if err := json.Unmarshal(b, &c); err != nil {
		panic(err)
	}
	return &c
}

// Violation is a broken property, with a class that replays must reproduce.
type Violation struct {
	Property string `json:"property"`
	Class    string `json:"class"`
	Msg      string `json:"msg"`
}

// ---- checks -----------------------------------------------------------------------

// Check decides one property.
type Check struct {
	ID         string
	Classes    string // classes that count as violations of this property
	Gen        func(r *rt.Rand, sc *Scenario)
	Setup      func(r *Run)
	PhaseBegin func(r *Run, i int)
	PhaseReady func(r *Run, i int) // after the acts and the start of the processes
	Quiesced   func(r *Run, i int) // before garbage is collected
	PhaseEnd   func(r *Run, i int)
	End        func(r *Run)
	Measure    string
}

var checks = map[string]*Check{}

func register(c *Check) { checks[c.ID] = c }

// ---- a run --------------------------------------------------------------------------

type liveClient struct {
	spec    *ClientSpec
	idx     int
	obj     interface{}
	dag     *dag.DAG
	compute func(hash []byte, height, nonce uint64) ([]byte, []byte, error)
	other   func(op Op, header, soln []byte, sols []uint64) (string, [][]byte)
}

type procState struct {
	spec    *ProcSpec
	p       *rt.Proc
	inst    int
	ended   *rt.Proc // the one last seen to have ended itself
	clients []*liveClient
	late    map[[2]int]*liveClient // by task and client
}

// Gen is one entry into the generation of an epoch's cache.
type Gen struct {
	Proc  string
	C     *ClientSpec
	ci    int
	dagID uintptr
	Epoch uint64
	Phase int
	Task  string
	L1    bool
	Seq   int
	At    int // in the order of calls and generations
}

// Open is one successful opening of a file.
type Open struct {
	Phase      int
	Proc, Path string
}

// Call is one call of a client.
type Call struct {
	Phase, Task int
	Proc        string
	Op          Op
	Spec        *ClientSpec
	Ended       bool
	Wrong       string
	From, To    int // where the call began and ended, in the order of calls and generations
	TaskName    string
	C           int
}

// Run is a run in progress.
type Run struct {
	sc        *Scenario
	chk       *Check
	classes   map[string]bool
	s         *rt.Sim
	fs        *fs.FS
	procs     []*procState
	viol      []Violation
	dropped   map[string]int
	phase     int
	gens      []Gen
	calls     []*Call
	tick      int
	crashN    int
	onGen     []func(g *Gen, args []interface{})
	onCall    []func(c *Call)
	onAct     []func(a *Act)
	onEvent   []func(e fs.Event)
	onOp      []func(t *rt.Task, kind, path string)
	opens     []Open
	x         interface{} // the check's own state
	probes    map[string]int
	bufs      *bufPool
	kept      []keptResult
	outcome   []string
	scribbled bool
	reuse     map[string]interface{}
}

// fail reports a broken expectation; it counts if the class belongs to the check.
func (r *Run) fail(class, format string, a ...interface{}) {
	if !r.classes[class] {
		r.dropped[class]++
		return
	}
	if len(r.viol) < 20 {
		v := Violation{r.chk.ID, class, fmt.Sprintf(format, a...)}
		r.viol = append(r.viol, v)
		r.s.Logf("VIOLATION %s: %s", class, v.Msg)
	}
}

func (r *Run) probe(k string) { r.probes[k]++ }

// Result is what remains of a run.
type Result struct {
	Viol         []Violation
	Rec          []rt.Dev
	LogHash      uint64
	Interleaving uint64
	Counts       map[string]int
	Probes       map[string]int
	Dropped      map[string]int
	Now          int64
	Steps        int64
	Switches     int
	Unsupported  string
	Leaked       bool
	PeakOps      int64
	Calls        int
}

func runScenario(t *testing.T, sc *Scenario, seed uint64, plan []rt.Dev, planMode bool, trace func(string)) (res Result) {
	defer func() {
		if e := recover(); e != nil {
			if strings.Contains(fmt.Sprint(e), "deadlock") {
				res.Leaked = true
				return
			}
			panic(e)
		}
	}()
	run := func() {
		synctest.Test(t, func(t *testing.T) {
			runInBubble(sc, seed, plan, planMode, trace, &res)
		})
	}
	if !rt.Race {
		run()
		return
	}
	// the testing package ends the calling goroutine when a race has been reported
	var bad interface{}
	over := make(chan bool)
	go func() {
		defer close(over)
		defer func() { bad = recover() }()
		run()
	}()
	<-over
	if bad != nil {
		panic(bad)
	}
	races(sc.Check, &res)
	return
}

func runInBubble(sc *Scenario, seed uint64, plan []rt.Dev, planMode bool, trace func(string), res *Result) {
	chk := checks[sc.Check]
	s := rt.NewSim(seed, sc.Pol, plan, planMode)
	s.Trace = trace
	s.MaxSteps = 1_000_000_000
	s.MaxOps = 60_000
	rt.S = s
	r := &Run{sc: sc, chk: chk, classes: map[string]bool{}, s: s, fs: fs.New(s), dropped: map[string]int{}, probes: map[string]int{}}
	for _, c := range strings.Fields(chk.Classes) {
		r.classes[c] = true
	}
	for i := range sc.Procs {
		r.procs = append(r.procs, &procState{spec: &sc.Procs[i]})
	}
	r.fs.OnEvent = func(e fs.Event) {
		for _, f := range r.onEvent {
			f(e)
		}
	}
	s.AfterOp = func(t *rt.Task, kind, path string) {
		if kind == "open" && t.Proc != nil {
			r.opens = append(r.opens, Open{r.phase, t.Proc.Name, path})
		}
		for _, f := range r.onOp {
			f(t, kind, path)
		}
	}
	if chk.Setup != nil {
		chk.Setup(r)
	}
	for i := range sc.Phases {
		r.runPhase(i)
		if s.Unsupported != "" || s.Deadlock != "" || s.Livelock != "" {
			break
		}
	}
	if chk.End != nil && s.Unsupported == "" {
		chk.End(r)
	}
	res.Viol, res.Rec, res.LogHash, res.Interleaving = r.viol, s.Rec, s.LogHash(), s.Interleaving()
	res.Counts, res.Probes, res.Dropped = s.Counts, r.probes, r.dropped
	res.Now, res.Steps, res.Switches, res.Unsupported = s.Now(), s.Steps(), s.Switches(), s.Unsupported
	res.Calls = len(r.calls)
	res.PeakOps = s.PeakOps()
	if len(s.Alive()) > 0 {
		s.Stop()
	}
	r.procs, r.kept = nil, nil
	r.fs.Release()
	rt.SkipFn = nil
	s.Finish()
	if r.bufs != nil {
		r.bufs.release()
	}
}

func (r *Run) runPhase(i int) {
	r.phase = i
	ph := &r.sc.Phases[i]
	r.s.Logf("phase %d %s", i, ph.Tag)
	if r.chk.PhaseBegin != nil {
		r.chk.PhaseBegin(r, i)
	}
	for _, k := range ph.Restart {
		if p := r.procs[k]; p.p != nil && !p.p.Dead {
			r.s.Logf("%s exits", p.p.Name)
			r.s.Kill(p.p, "exit")
		}
	}
	for k := range ph.Acts {
		r.act(&ph.Acts[k])
	}
	need := map[int]bool{}
	for _, t := range ph.Tasks {
		need[t.Proc] = true
	}
	quiet, calm := r.s.NoPreempt, r.s.FaultsOff
	r.s.NoPreempt, r.s.FaultsOff = true, true
	started := false
	for k := range r.procs {
		if need[k] && (r.procs[k].p == nil || r.procs[k].p.Dead) {
			r.start(k)
			started = true
		}
	}
	if started {
		r.s.RunPhase()
		r.crashes()
	}
	r.s.NoPreempt, r.s.FaultsOff = quiet, calm
	for k := range ph.Tasks {
		ts := &ph.Tasks[k]
		ps := r.procs[ts.Proc]
		if ps.p.Dead {
			continue
		}
		k := k
		r.s.Spawn(ps.p, fmt.Sprintf("%s.%d.%d", ps.p.Name, i, k), func() {
			for _, op := range ts.Ops {
				r.do(ps, k, op)
			}
		})
	}
	if r.chk.PhaseReady != nil {
		r.chk.PhaseReady(r, i)
	}
	r.s.FaultsOff = ph.Calm || ph.Quiet
	r.s.NoPreempt = ph.Quiet
	if r.s.FaultsOff && r.fs.Full {
		r.s.SetFull(false)
	}
	r.s.RunPhase()
	r.crashes()
	r.s.FaultsOff, r.s.NoPreempt = false, false
	if ph.Drop {
		for _, p := range r.procs {
			p.clients, p.late = nil, nil
		}
	}
	if r.chk.Quiesced != nil && r.s.Deadlock == "" && r.s.Livelock == "" && r.s.Unsupported == "" {
		r.chk.Quiesced(r, i)
	}
	if ph.GC && r.s.Deadlock == "" && r.s.Livelock == "" {
		r.collect()
	}
	if r.s.Deadlock != "" {
		r.fail("hang", "deadlock: %s", r.s.Deadlock)
	}
	if r.s.Livelock != "" {
		r.fail("hang", "%s", r.s.Livelock)
	}
	for _, m := range r.s.Misuse {
		r.fail("misuse", "%s", m)
	}
	r.s.Misuse = nil
	if r.chk.PhaseEnd != nil && r.s.Deadlock == "" && r.s.Livelock == "" && r.s.Unsupported == "" {
		r.chk.PhaseEnd(r, i)
	}
}

// collect runs the garbage collector and the finalizers until nothing more is found.
func (r *Run) collect() {
	r.s.NoPreempt, r.s.FaultsOff = true, true
	for i := 0; i < 4; i++ {
		n := r.s.Counts["finalizers"]
		r.s.CollectGarbage()
		r.s.RunPhase()
		r.crashes()
		if r.s.Counts["finalizers"] == n {
			break
		}
	}
	r.s.NoPreempt, r.s.FaultsOff = false, false
}

func (r *Run) crashes() {
	for _, c := range r.s.Crashes[r.crashN:] {
		fault := strings.Contains(c.Msg, "mapping of") || strings.Contains(c.Msg, "unmapped memory") || strings.HasPrefix(c.Msg, "bus error") || c.Msg == "memory fault"
		if fault {
			r.fail("fault", "%s: %s at %s", c.Task, c.Msg, c.Where)
		}
		if strings.Contains(c.Msg, "caller's buffer") {
			r.fail("buffer", "%s: %s at %s", c.Task, c.Msg, c.Where)
		}
		if strings.Contains(c.Msg, "concurrent map") {
			r.fail("race", "%s: %s at %s", c.Task, c.Msg, c.Where)
		}
		r.fail("panic", "%s panicked: %s at %s", c.Task, c.Msg, c.Where)
	}
	r.crashN = len(r.s.Crashes)
	for _, ps := range r.procs {
		if ps.p != nil && ps.p.Exited && ps.p != ps.ended && ps.spec.Args == nil {
			ps.ended = ps.p
			r.fail("panic", "%s: the library ended the process, with status %d", ps.p.Name, ps.p.ExitCode)
		}
	}
}

// start starts a process, or starts it again.
func (r *Run) start(k int) {
	ps := r.procs[k]
	ps.inst++
	name := ps.spec.Name
	if ps.inst > 1 {
		name = fmt.Sprintf("%s#%d", name, ps.inst)
	}
	p := r.s.NewProc(name, ps.spec.Rand)
	if ps.spec.Home != "" {
		p.Home = ps.spec.Home
		p.Env["HOME"] = p.Home
	}
	p.UserErr = ps.spec.UserErr
	p.OnKill = append(p.OnKill, func() { r.fs.ProcDied(p); ps.clients = nil })
	p.OnEnter = func(fn string, args []interface{}) { r.entered(ps, fn, args) }
	ps.p = p
	ps.clients = make([]*liveClient, len(ps.spec.Clients))
	ps.late = nil
	if ps.spec.Late {
		ps.late = map[[2]int]*liveClient{}
		for i, c := range ps.spec.Clients {
			ps.clients[i] = &liveClient{spec: &r.sc.Clients[c], idx: i}
		}
		return
	}
	r.s.Spawn(p, name+".init", func() {
		for i, c := range ps.spec.Clients {
			lc := r.newClient(&r.sc.Clients[c])
			lc.idx = i
			if ps.clients != nil {
				ps.clients[i] = lc
			}
		}
	})
}

func (r *Run) entered(ps *procState, fn string, args []interface{}) {
	r.tick++
	g := Gen{Proc: ps.p.Name, Phase: r.phase, Task: rt.Cur().Name, Seq: r.s.Seq(), At: r.tick, ci: -1}
	var d *dag.DAG
	for _, a := range args {
		switch a := a.(type) {
		case *dag.DAG:
			d = a
		case uint64:
			g.Epoch = a
		}
	}
	g.L1 = strings.HasSuffix(fn, "L1Cache")
	g.dagID = uintptr(unsafe.Pointer(d))
	for _, c := range ps.clients {
		if c != nil && (c.dag == d || len(ps.clients) == 1) {
			g.C, g.ci = c.spec, c.idx
		}
	}
	if !g.L1 {
		r.s.Logf("%s generates epoch %d", g.Task, g.Epoch)
	}
	r.gens = append(r.gens, g)
	for _, f := range r.onGen {
		f(&r.gens[len(r.gens)-1], args)
	}
}

func config(c *ClientSpec) dag.Config {
	p := c.P
	return dag.Config{Name: c.Name, Revision: c.Rev, StorageDir: c.Dir, DatasetInitBytes: p.DatasetInit, DatasetGrowthBytes: p.DatasetGrowth,
		CacheInitBytes: p.CacheInit, CacheGrowthBytes: p.CacheGrowth, MixBytes: p.Mix, DatasetParents: p.Parents, EpochLength: p.EpochLength,
		SeedEpochLength: p.SeedEpochLength, CacheRounds: p.Rounds, CachesCount: c.Caches, CachesLockMmap: c.Lock,
		L1Enabled: p.L1, L1CacheSize: 4096 * 4, L1CacheNumItems: 4096}
}

// dagOf finds the *dag.DAG inside a client.
func dagOf(c interface{}) *dag.DAG {
	return findDag(reflect.ValueOf(c), 0)
}

func findDag(v reflect.Value, depth int) *dag.DAG {
	for depth < 6 && (v.Kind() == reflect.Ptr || v.Kind() == reflect.Interface) && !v.IsNil() {
		if v.Kind() == reflect.Ptr && v.Type() == reflect.TypeOf((*dag.DAG)(nil)) {
			return (*dag.DAG)(v.UnsafePointer())
		}
		v = v.Elem()
		depth++
	}
	if depth >= 6 || v.Kind() != reflect.Struct {
		return nil
	}
	if v.Type() == reflect.TypeOf(dag.DAG{}) && v.CanAddr() {
		return (*dag.DAG)(unsafe.Pointer(v.UnsafeAddr()))
	}
	for i := 0; i < v.NumField(); i++ {
		if d := findDag(v.Field(i), depth+1); d != nil {
			return d
		}
	}
	return nil
}

func (r *Run) newClient(c *ClientSpec) *liveClient {
	l := &liveClient{spec: c}
	octo := func(x *octopus.Client) {
		l.obj = x
		l.compute = func(h []byte, height, nonce uint64) ([]byte, []byte, error) {
			d, err := x.Compute(h, height, nonce)
			return nil, d, err
		}
	}
	switch c.Ctor {
	case "ETH":
		x := ethash.NewEthereum()
		l.obj, l.compute = x, x.Compute
	case "ETC":
		x := ethash.NewEthereumClassic()
		l.obj, l.compute = x, x.Compute
	case "RVN":
		x := kawpow.NewRavencoin()
		l.obj, l.compute = x, x.Compute
	case "FIRO":
		x := firopow.NewFiro()
		l.obj, l.compute = x, x.Compute
	case "CFX":
		octo(octopus.NewConflux())
	case "":
		switch c.Kind {
		case "ethash":
			x := ethash.New(config(c))
			l.obj, l.compute = x, x.Compute
		case "kawpow":
			x := kawpow.New(config(c))
			l.obj, l.compute = x, x.Compute
		case "firopow":
			x := firopow.New(config(c))
			l.obj, l.compute = x, x.Compute
		case "octopus":
			octo(octopus.New(config(c)))
		default:
			newOther(l, c)
			return l
		}
	default:
		panic("unknown constructor " + c.Ctor)
	}
	l.dag = dagOf(l.obj)
	if l.dag == nil {
		panic(rt.Unsupported("no *dag.DAG in a client"))
	}
	if c.Small {
		c.Name, c.Rev, c.Dir = l.dag.Name, l.dag.Revision, l.dag.StorageDir
		g, p := &l.dag.Config, c.P
		g.DatasetInitBytes, g.DatasetGrowthBytes, g.CacheInitBytes, g.CacheGrowthBytes = p.DatasetInit, p.DatasetGrowth, p.CacheInit, p.CacheGrowth
		g.DatasetParents, g.CacheRounds, g.MixBytes = p.Parents, p.Rounds, p.Mix
		g.CacheSizes, g.DatasetSizes = nil, nil
	}
	if c.NoDisk {
		l.dag.StorageDir = ""
	}
	return l
}

// ---- calls ----------------------------------------------------------------------------

// hashBytes are arbitrary bytes. Those of seeds that are equal modulo 8 differ in one byte.
func hashBytes(seed uint64, n int) []byte {
	if k := seed >> 3; k > 0 && seed < 1<<16 && n > 0 {
		b := hashBytes(seed&7, n)
		b[[]int{0, n - 1, n / 2, min(8, n-1)}[k%4]] ^= byte(1 + k)
		return b
	}
	g := rt.NewRand(seed*0x9e37 + 77)
	b := make([]byte, (n+7)/8*8)
	for i := 0; i < len(b); i += 8 {
		binary.LittleEndian.PutUint64(b[i:], g.U64())
	}
	return b[:n]
}

type wantKey struct {
	p                   ref.Params
	hash, height, nonce uint64
}
type wantVal struct{ mix, digest []byte }

var wants = map[wantKey]wantVal{}

func want(p ref.Params, hash, height, nonce uint64) wantVal {
	k := wantKey{p, hash, height, nonce}
	v, ok := wants[k]
	if !ok {
		if len(wants) > 20000 {
			wants = map[wantKey]wantVal{}
		}
		v.mix, v.digest = ref.Compute(p, hashBytes(hash, 32), height, nonce)
		wants[k] = v
	}
	return v
}

// own puts an argument where its caller keeps it: in a buffer of its own for each call, or in one that the
// caller uses again for its next call.
func own[T any](r *Run, op Op, which string, a []T) []T {
	if op.M&4 == 0 {
		return append([]T(nil), a...)
	}
	if r.reuse == nil {
		r.reuse = map[string]interface{}{}
	}
	k := rt.Cur().Name + which
	buf, _ := r.reuse[k].([]T)
	if cap(buf) < len(a) {
		buf = make([]T, 2*len(a))
		r.reuse[k] = buf
	}
	buf = buf[:len(a)]
	watch(buf, true)
	copy(buf, a)
	return buf
}

// watch tells the race detector of a caller's own use of its arguments or results.
func watch[T any](a []T, write bool) {
	if !rt.Race || len(a) == 0 || rt.Killed() {
		return
	}
	n := len(a) * int(unsafe.Sizeof(a[0]))
	if write {
		rt.CallerWrites(unsafe.Pointer(&a[0]), n)
	} else {
		rt.CallerReads(unsafe.Pointer(&a[0]), n)
	}
}

// after ends a caller's use of its buffer: sometimes it writes something else there at once.
func after[T any](op Op, a []T, x T) {
	if op.M&8 != 0 {
		watch(a, true)
		for i := range a {
			a[i] = x
		}
	}
}

func (r *Run) do(ps *procState, task int, op Op) {
	switch op.K {
	case "act":
		r.act(op.Act)
		return
	case "gc":
		if !rt.Killed() {
			r.s.Counts["gc"]++
			r.s.Logf("gc")
			r.s.CollectGarbage()
			rt.Point("gc")
		}
		return
	case "program":
		r.program(ps, op)
		return
	}
	lc := ps.clients[op.C]
	if lc == nil {
		return
	}
	if ps.spec.Late {
		k := [2]int{task, op.C}
		if ps.late[k] == nil {
			l := r.newClient(lc.spec)
			l.idx = lc.idx
			ps.late[k] = l
		}
		lc = ps.late[k]
	}
	if op.K == "new" { // another client of the same kind, made while others are at work
		lc = r.newClient(lc.spec)
		op.K = "call"
	}
	if op.K == "bad" && lc.compute == nil {
		op.K = "call"
	}
	if op.K == "bad" { // not a header hash: whatever the answer, later calls must not suffer
		hash := hashBytes(op.Hash, []int{0, 31, 33, 64}[op.V%4])
		if r.bufs != nil {
			hash = r.bufs.bytes(hash)
		}
		r.s.Logf("%s calls c%d with a hash of %d bytes", rt.Cur().Name, op.C, len(hash))
		lc.compute(hash, op.E*lc.spec.P.EpochLength+op.Off, op.Nonce)
		return
	}
	r.tick++
	if t := rt.Cur(); t != nil {
		t.Ops = 0
	}
	c := &Call{Phase: r.phase, Task: task, Proc: ps.p.Name, Op: op, Spec: lc.spec, From: r.tick, TaskName: rt.Cur().Name, C: op.C}
	r.calls = append(r.calls, c)
	if lc.other != nil {
		r.otherCall(ps, lc, c, op)
		return
	}
	height := op.E*lc.spec.P.EpochLength + op.Off
	var hash []byte
	if r.bufs != nil {
		hash = r.bufs.get(op.Hash)
	} else {
		hash = own(r, op, " hash", hashBytes(op.Hash, 32))
		defer after(op, hash, 0xee)
	}
	r.s.Logf("%s calls c%d epoch %d height %d", rt.Cur().Name, op.C, op.E, height)
	mix, digest, err := lc.compute(hash, height, op.Nonce)
	if rt.Killed() {
		return
	}
	r.tick++
	c.Ended, c.To = true, r.tick
	r.s.Logf("%s: call ended", rt.Cur().Name)
	watch(mix, op.M&16 != 0)
	watch(digest, op.M&16 != 0)
	if lc.spec.Ctor != "" && !lc.spec.Small {
		r.shippedResult(lc, c, height, op, mix, digest, err)
	} else {
		w := want(lc.spec.P, op.Hash, height, op.Nonce)
		switch {
		case err != nil:
			c.Wrong = "error: " + err.Error()
		case !bytes.Equal(digest, w.digest):
			c.Wrong = fmt.Sprintf("digest %x, want %x", digest, w.digest)
		case !bytes.Equal(mix, w.mix):
			c.Wrong = fmt.Sprintf("mix %x, want %x", mix, w.mix)
		}
	}
	if c.Wrong != "" {
		r.fail("result", "%s, %s client c%d, height %d (epoch %d), nonce %d: %s", rt.Cur().Name, lc.spec.Kind, op.C, height, op.E, op.Nonce, c.Wrong)
	}
	if r.bufs == nil && !bytes.Equal(hash, hashBytes(op.Hash, 32)) {
		r.fail("buffer", "the header hash passed by %s was changed", rt.Cur().Name)
	}
	if r.bufs != nil {
		r.keep(lc, op, mix, digest)
	}
	for _, f := range r.onCall {
		f(c)
	}
}

// ---- cache files ------------------------------------------------------------------------

var magic = []byte{0xfe, 0xca, 0xdd, 0xba, 0xad, 0xde, 0xe1, 0xfe}

func (c *ClientSpec) path(epoch uint64, l1 bool) string {
	n := "cache"
	if l1 {
		n = "l1"
	}
	return filepath.Join(c.Dir, fmt.Sprintf("%s-%s-R%d-%x", n, c.Name, c.Rev, ref.Seed(c.P, epoch)[:8]))
}

type fullKey struct {
	p     ref.Params
	epoch uint64
	l1    bool
}

var fulls = map[fullKey][]byte{}

// full is the complete file of an epoch. It must not be changed.
func (c *ClientSpec) full(epoch uint64, l1 bool) []byte {
	k := fullKey{c.P, epoch, l1}
	if b, ok := fulls[k]; ok {
		return b
	}
	if len(fulls) > 1000 {
		fulls = map[fullKey][]byte{}
	}
	w, w1 := ref.Cache(c.P, epoch)
	if l1 {
		w = w1
	}
	b := append([]byte(nil), magic...)
	for _, x := range w {
		b = binary.LittleEndian.AppendUint32(b, x)
	}
	fulls[k] = b
	return b
}

// kinds are the files an epoch has.
func (c *ClientSpec) kinds() []bool {
	if c.P.L1 {
		return []bool{false, true}
	}
	return []bool{false}
}

// whole reports whether the file is there and complete.
func (r *Run) whole(c *ClientSpec, epoch uint64, l1 bool) bool {
	n := r.fs.Node(c.path(epoch, l1))
	return n != nil && !n.Dir && n.Link == "" && bytes.Equal(r.fs.Bytes(n), c.full(epoch, l1))
}

// epochOf tells which of the client's files a path names.
func (c *ClientSpec) epochOf(path string, maxEpoch uint64) (epoch uint64, l1, ok bool) {
	if c.Dir == "" || filepath.Dir(path) != c.Dir {
		return
	}
	for e := uint64(0); e <= maxEpoch; e++ {
		for _, l := range []bool{false, true} {
			if c.path(e, l) == path {
				return e, l, true
			}
		}
	}
	return
}

// ---- what the world does ----------------------------------------------------------------

func (r *Run) act(a *Act) {
	path := a.Path
	var c *ClientSpec
	if path == "" && len(r.sc.Clients) > 0 {
		c = &r.sc.Clients[a.C]
		if c.Dir != "" && c.P.EpochLength > 0 {
			path = c.path(a.E, a.L1)
		}
	}
	r.s.Logf("act %s %s %s %d", a.K, path, a.Arg, a.N)
	r.s.Counts["act_"+a.K]++
	mkdir := func() {
		d := filepath.Dir(path)
		var up []string
		for ; d != "/" && r.fs.Node(d) == nil; d = filepath.Dir(d) {
			up = append(up, d)
		}
		for i := len(up) - 1; i >= 0; i-- {
			r.fs.Put(up[i], nil, true)
		}
	}
	put := func(b []byte) {
		mkdir()
		if r.fs.Node(path+"/x") != nil {
			return
		}
		if n := r.fs.Node(path); n != nil {
			r.fs.RemoveDirect(path)
		}
		r.fs.Put(path, b, false)
	}
	switch a.K {
	case "whole": // a complete file, as an earlier process would have left it
		put(c.full(a.E, a.L1))
	case "empty":
		put(nil)
	case "cut": // the right beginning, N bytes in all
		b := append([]byte(nil), c.full(a.E, a.L1)...)
		n := int(a.N)
		for len(b) < n {
			b = append(b, 0xa5)
		}
		put(b[:n])
	case "badmagic": // byte N of the header is wrong
		b := append([]byte(nil), c.full(a.E, a.L1)...)
		b[int(a.N)%8] ^= 0x41
		put(b)
	case "swapped": // the other byte order
		b := append([]byte(nil), c.full(a.E, a.L1)...)
		for i := 0; i+4 <= len(b); i += 4 {
			b[i], b[i+1], b[i+2], b[i+3] = b[i+3], b[i+2], b[i+1], b[i]
		}
		put(b)
	case "zeros":
		put(make([]byte, len(c.full(a.E, a.L1))))
	case "junk":
		put(hashBytes(uint64(a.N), len(c.full(a.E, a.L1))))
	case "file":
		put([]byte(a.Arg))
	case "readonly":
		put([]byte(a.Arg))
		r.fs.Node(path).Mode = 0444
	case "dir":
		mkdir()
		if r.fs.Node(path+"/x") != nil {
			break
		}
		r.fs.RemoveDirect(path)
		r.fs.Put(path, nil, true)
	case "dirfull": // somebody's directory, with a file in it
		if path == "" || r.fs.Node(path) != nil {
			break
		}
		mkdir()
		a.Path = path
		r.fs.Put(path, nil, true)
		r.fs.Put(path+"/x", []byte(path), false)
	case "link":
		mkdir()
		r.fs.RemoveDirect(path)
		r.fs.PutLink(path, a.Arg)
	case "unreadable":
		put(c.full(a.E, a.L1))
		if n := r.fs.Node(path); !n.Dir {
			n.Mode = 0
		}
	case "protect": // whatever is there may be read but not written
		if n := r.fs.Node(path); n != nil && !n.Dir {
			n.Mode = 0444
		}
	case "remove":
		r.fs.RemoveDirect(path)
	case "commit":
		r.fs.Commit()
	case "deny":
		r.fs.Deny[a.Path] = a.Arg
	case "allow":
		r.fs.Deny = map[string]string{}
	case "full":
		r.s.SetFull(a.N == 1)
	case "jump":
		r.s.JumpClock(a.N)
	case "power":
		for _, p := range r.procs {
			if p.p != nil && !p.p.Dead {
				r.s.Kill(p.p, "power loss")
			}
		}
		r.fs.PowerLoss(uint64(a.N))
	default:
		panic("unknown act " + a.K)
	}
	for _, f := range r.onAct {
		f(a)
	}
}

// ---- small helpers -------------------------------------------------------------------------

func sortedKeys(m map[string]int) []string {
	var k []string
	for x := range m {
		k = append(k, x)
	}
	sort.Strings(k)
	return k
}

func (r *Run) genCount(proc string, ci int, epoch uint64, phase int) int {
	n := 0
	for _, g := range r.gens {
		if !g.L1 && g.Proc == proc && g.ci == ci && g.Epoch == epoch && (phase < 0 || g.Phase == phase) {
			n++
		}
	}
	return n
}

var _ = runtime.KeepAlive
