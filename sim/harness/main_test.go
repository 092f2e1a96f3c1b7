//go:build go1.25

//go:debug asynctimerchan=0

package verifharness

import (
	"encoding/json"
	"fmt"
	"os"
	"runtime"
	"runtime/debug"
	"sort"
	"testing"
	"time"

	"powsim/rt"
)

// Job is what the driver asks a worker process to do.
type Job struct {
	Mode     string  `json:"mode"` // search, replay, hash
	Check    string  `json:"check"`
	Base     uint64  `json:"base"`
	From, To uint64  // seed numbers
	Step     uint64  `json:"step"`
	Budget   float64 `json:"budget"` // seconds; a safety stop only
	Out      string  `json:"out"`
	Sites    string  `json:"sites"`
	Replay   string  `json:"replay"`
	Trace    bool    `json:"trace"`
	Known    []Known `json:"known"`
	MinTime  float64 `json:"min_time"`
	Progress string  `json:"progress"`
}

// Known is a listed finding: violations that match it are counted, not reported.
type Known struct {
	Property string `json:"property"`
	Class    string `json:"class"`
	Match    string `json:"match"`
}

// Replay is a violation as a file.
type Replay struct {
	Property  string      `json:"property"`
	Class     string      `json:"class"`
	Message   string      `json:"message"`
	Seed      uint64      `json:"seed"`
	SeedNo    uint64      `json:"seed_number"`
	Mode      string      `json:"mode"` // plan: the deviations below; seed: the whole random run
	Scenario  *Scenario   `json:"scenario"`
	Plan      []rt.Dev    `json:"plan"`
	Original  int         `json:"deviations_before_minimising"`
	LogHash   string      `json:"log_hash"`
	All       []Violation `json:"all_violations"`
	Readable  []string    `json:"trace"`
	MinimRuns int         `json:"minimising_runs"`
}

// Report is a worker's answer.
type Report struct {
	Check       string         `json:"check"`
	Runs        int            `json:"runs"`
	Calls       int            `json:"calls"`
	Wall        float64        `json:"wall"`
	SimNs       int64          `json:"sim_ns"`
	Steps       int64          `json:"steps"`
	Switches    int64          `json:"switches"`
	Counts      map[string]int `json:"counts"`
	Probes      map[string]int `json:"probes"`
	Dropped     map[string]int `json:"dropped"`
	Inter       []uint64       `json:"inter"`
	Distinct    []uint64       `json:"distinct"`
	Violation   *Replay        `json:"violation"`
	Unsupported string         `json:"unsupported"`
	Leaked      int            `json:"leaked"`
	Nondet      []string       `json:"nondet"`
	Checked     int            `json:"determinism_checked"`
	KnownHits   map[string]int `json:"known_hits"`
	KnownMsg    []string       `json:"known_msg"`
	Samples     []string       `json:"samples"`
	Hashes      []string       `json:"hashes"`
	Reproduced  bool           `json:"reproduced"`
	Stopped     bool           `json:"stopped"`
	Faulty      int            `json:"faulty_runs"`
	Devs        int64          `json:"devs"`
	Reached     []string       `json:"reached"`
	PeakSteps   int64          `json:"peak_steps"`
	PeakOps     int64          `json:"peak_ops"`
}

func mix(a, b uint64) uint64 { return rt.NewRand(a ^ (b+1)*0xd1342543de82ef95).U64() }

func seedOf(check string, base, i uint64) uint64 {
	h := uint64(14695981039346656037)
	for _, c := range []byte(check) {
		h = (h ^ uint64(c)) * 1099511628211
	}
	return mix(mix(base, h), i)
}

func generate(check string, seed uint64) *Scenario {
	sc := &Scenario{Check: check}
	checks[check].Gen(rt.NewRand(seed^0x5ce9a510), sc)
	switch check {
	case "C01", "C14", "C16":
		malformed(rt.NewRand(seed^0x3bad11), sc)
	}
	switch check {
	case "C06", "C07", "C08", "C09", "C10", "C11", "C13", "C21", "C22":
		enlarge(rt.NewRand(seed^0xb16), sc)
	}
	switch check {
	case "C01", "C15", "C29":
		construct(rt.NewRand(seed^0x11e35), sc)
	}
	return sc
}

func writeReport(j *Job, rep *Report) {
	b, err := json.Marshal(rep)
	if err != nil {
		panic(err)
	}
	if err := os.WriteFile(j.Out, b, 0644); err != nil {
		panic(err)
	}
}

func TestSim(t *testing.T) {
	var j Job
	b, err := os.ReadFile(os.Getenv("POWSIM_JOB"))
	if err != nil {
		t.Skip("no job")
	}
	if err := json.Unmarshal(b, &j); err != nil {
		t.Fatal(err)
	}
	var sites []string
	if b, err = os.ReadFile(j.Sites); err != nil {
		t.Fatal(err)
	}
	if err := json.Unmarshal(b, &sites); err != nil {
		t.Fatal(err)
	}
	rt.SetSites(sites)
	debug.SetGCPercent(400)
	runtime.GOMAXPROCS(2)
	switch j.Mode {
	case "search":
		search(t, &j)
	case "replay":
		replay(t, &j)
	default:
		t.Fatalf("unknown mode %q", j.Mode)
	}
}

func knownHit(known []Known, v Violation) int {
	for i, k := range known {
		if k.Property == v.Property && k.Class == v.Class && matches(k.Match, v.Msg) {
			return i
		}
	}
	return -1
}

func search(t *testing.T, j *Job) {
	rep := &Report{Check: j.Check, Counts: map[string]int{}, Probes: map[string]int{}, Dropped: map[string]int{}, KnownHits: map[string]int{}}
	start := time.Now()
	inter, distinct := map[uint64]bool{}, map[uint64]bool{}
	type again struct {
		i uint64
		h uint64
	}
	var twice []again
	for i := j.From; i < j.To; i += j.Step {
		if time.Since(start).Seconds() > j.Budget {
			rep.Stopped = true
			break
		}
		if j.Progress != "" {
			os.WriteFile(j.Progress, []byte(fmt.Sprint(i)), 0644)
		}
		seed := seedOf(j.Check, j.Base, i)
		sc := generate(j.Check, seed)
		res := runScenario(t, sc, seed, nil, false, nil)
		if res.Leaked {
			rep.Leaked++
		}
		rep.Runs++
		rep.Calls += res.Calls
		rep.SimNs += res.Now
		rep.Steps += res.Steps
		rep.PeakSteps, rep.PeakOps = max(rep.PeakSteps, res.Steps), max(rep.PeakOps, res.PeakOps)
		rep.Switches += int64(res.Switches)
		rep.Devs += int64(len(res.Rec))
		inter[res.Interleaving] = true
		faulty := false
		for k, v := range res.Counts {
			rep.Counts[k] += v
			faulty = true
		}
		if faulty {
			rep.Faulty++
		}
		if faulty || len(res.Rec) > 0 {
			distinct[res.LogHash] = true
		}
		for k, v := range res.Probes {
			rep.Probes[k] += v
		}
		for k, v := range res.Dropped {
			rep.Dropped[k] += v
		}
		if len(rep.Samples) < 2 {
			rep.Samples = append(rep.Samples, sample(i, sc, &res))
		}
		if len(twice) < 6 {
			twice = append(twice, again{i, res.LogHash})
		}
		if res.Unsupported != "" {
			rep.Unsupported = fmt.Sprintf("seed %d: %s", i, res.Unsupported)
			break
		}
		var bad *Violation
		for k := range res.Viol {
			if n := knownHit(j.Known, res.Viol[k]); n >= 0 {
				rep.KnownHits[fmt.Sprint(n)]++
				continue
			}
			bad = &res.Viol[k]
			break
		}
		if bad != nil {
			rep.Violation = minimise(t, j, sc, seed, i, &res, *bad)
			break
		}
	}
	// the same seeds again must give the same runs
	if rep.Violation == nil && rep.Unsupported == "" {
		for _, a := range twice {
			seed := seedOf(j.Check, j.Base, a.i)
			res := runScenario(t, generate(j.Check, seed), seed, nil, false, nil)
			rep.Checked++
			if res.LogHash != a.h {
				rep.Nondet = append(rep.Nondet, fmt.Sprintf("seed %d: %x then %x", a.i, a.h, res.LogHash))
			}
			rep.Hashes = append(rep.Hashes, fmt.Sprintf("%d:%x", a.i, a.h))
		}
	}
	for k := range inter {
		rep.Inter = append(rep.Inter, k)
	}
	for k := range distinct {
		rep.Distinct = append(rep.Distinct, k)
	}
	sort.Slice(rep.Distinct, func(a, b int) bool { return rep.Distinct[a] < rep.Distinct[b] })
	sort.Slice(rep.Inter, func(a, b int) bool { return rep.Inter[a] < rep.Inter[b] })
	for k, ok := range rt.Reached {
		if ok {
			rep.Reached = append(rep.Reached, rt.Sites[k])
		}
	}
	rep.Wall = time.Since(start).Seconds()
	writeReport(j, rep)
}

func sample(i uint64, sc *Scenario, res *Result) string {
	ops := 0
	for _, p := range sc.Phases {
		for _, t := range p.Tasks {
			ops += len(t.Ops)
		}
	}
	d := ""
	for k, x := range res.Rec {
		if x.Act != "switch" || k < 2 {
			d += "; " + x.String()
		}
		if len(d) > 400 {
			d += "; ..."
			break
		}
	}
	return fmt.Sprintf("seed %d: %d clients, %d processes, %d phases, %d calls, %d deviations%s", i, len(sc.Clients), len(sc.Procs), len(sc.Phases), ops, len(res.Rec), d)
}

func has(res *Result, v Violation, known []Known) *Violation {
	for k := range res.Viol {
		if res.Viol[k].Class == v.Class && knownHit(known, res.Viol[k]) < 0 {
			return &res.Viol[k]
		}
	}
	return nil
}

// minimise removes deviations, then steps of the scenario, while the violation stays.
func minimise(t *testing.T, j *Job, sc *Scenario, seed, no uint64, res *Result, v Violation) *Replay {
	rp := &Replay{Property: v.Property, Class: v.Class, Message: v.Msg, Seed: seed, SeedNo: no, Mode: "seed", Scenario: sc, Original: len(res.Rec), All: res.Viol, LogHash: fmt.Sprintf("%x", res.LogHash)}
	limit := j.MinTime
	if limit == 0 {
		limit = 25
	}
	deadline := time.Now().Add(time.Duration(limit * float64(time.Second)))
	try := func(s *Scenario, plan []rt.Dev) (*Result, *Violation) {
		rp.MinimRuns++
		r := runScenario(t, s, seed, plan, true, nil)
		if r.Unsupported != "" {
			return &r, nil
		}
		return &r, has(&r, v, j.Known)
	}
	plan := append([]rt.Dev(nil), res.Rec...)
	best, ok := try(sc, plan)
	if ok == nil {
		// the plan does not reproduce it: the whole random run is the replay
		rp.Plan = res.Rec
		return rp
	}
	cur := sc
	for round := 0; round < 4; round++ {
		before := len(plan)
		size := opCount(cur)
		// scenario first: fewer steps make every later run cheaper
		for again := true; again && time.Now().Before(deadline); {
			again = false
			for _, c := range smaller(cur) {
				if !time.Now().Before(deadline) {
					break
				}
				if r, w := try(c, plan); w != nil {
					cur, best, ok, again = c, r, w, true
					plan = append([]rt.Dev(nil), r.Rec...)
					break
				}
			}
		}
		for n := 2; len(plan) > 0 && time.Now().Before(deadline); {
			chunk := (len(plan) + n - 1) / n
			removed := false
			for at := 0; at < len(plan); at += chunk {
				if !time.Now().Before(deadline) {
					break
				}
				p := append(append([]rt.Dev(nil), plan[:at]...), plan[min(at+chunk, len(plan)):]...)
				if r, w := try(cur, p); w != nil {
					plan, best, ok, removed = p, r, w, true
					break
				}
			}
			if !removed {
				if chunk == 1 {
					break
				}
				n = min(n*2, len(plan))
			} else {
				n = max(2, n-1)
			}
		}
		if len(plan) == before && opCount(cur) == size || !time.Now().Before(deadline) {
			break
		}
	}
	rp.Mode, rp.Scenario, rp.Plan, rp.Message, rp.All = "plan", cur, plan, ok.Msg, best.Viol
	r, _ := try(cur, plan)
	rp.LogHash = fmt.Sprintf("%x", r.LogHash)
	var lines []string
	runScenario(t, cur, seed, plan, true, func(l string) { lines = append(lines, l) })
	if len(lines) > 400 {
		lines = append(append(lines[:200:200], "..."), lines[len(lines)-200:]...)
	}
	rp.Readable = lines
	return rp
}

func opCount(sc *Scenario) int {
	n := 0
	for _, p := range sc.Phases {
		n += 1 + len(p.Acts) + len(p.Restart)
		for _, t := range p.Tasks {
			n += 1 + len(t.Ops)
		}
	}
	return n
}

// smaller lists scenarios with something left out.
func smaller(sc *Scenario) []*Scenario {
	var out []*Scenario
	add := func(f func(c *Scenario)) {
		c := sc.clone()
		f(c)
		out = append(out, c)
	}
	for i := range sc.Phases {
		i := i
		if len(sc.Phases) > 1 {
			add(func(c *Scenario) { c.Phases[i] = Phase{Tag: c.Phases[i].Tag, GC: c.Phases[i].GC} })
		}
		for k := range sc.Phases[i].Tasks {
			k := k
			if len(sc.Phases[i].Tasks[k].Ops) > 1 {
				add(func(c *Scenario) { c.Phases[i].Tasks[k].Ops = c.Phases[i].Tasks[k].Ops[:1] })
			}
			if len(sc.Phases[i].Tasks[k].Ops) > 0 {
				add(func(c *Scenario) { c.Phases[i].Tasks[k].Ops = nil })
			}
			for o := range sc.Phases[i].Tasks[k].Ops {
				o := o
				if len(sc.Phases[i].Tasks[k].Ops) > 1 {
					add(func(c *Scenario) {
						ops := c.Phases[i].Tasks[k].Ops
						c.Phases[i].Tasks[k].Ops = append(append([]Op(nil), ops[:o]...), ops[o+1:]...)
					})
				}
			}
		}
		for k := range sc.Phases[i].Acts {
			k := k
			add(func(c *Scenario) {
				a := c.Phases[i].Acts
				c.Phases[i].Acts = append(append([]Act(nil), a[:k]...), a[k+1:]...)
			})
		}
	}
	// only those that are really smaller
	n := opCount(sc)
	k := 0
	for _, c := range out {
		if opCount(c) < n {
			out[k] = c
			k++
		}
	}
	return out[:k]
}

func replay(t *testing.T, j *Job) {
	var rp Replay
	b, err := os.ReadFile(j.Replay)
	if err != nil {
		t.Fatal(err)
	}
	if err := json.Unmarshal(b, &rp); err != nil {
		t.Fatal(err)
	}
	rep := &Report{Check: rp.Property, Counts: map[string]int{}}
	trace := func(l string) {}
	if j.Trace {
		trace = func(l string) { fmt.Println(l) }
	}
	if rt.Race {
		// what the standard library does only once would order tasks that nothing orders afterwards
		runScenario(t, rp.Scenario, rp.Seed, rp.Plan, rp.Mode == "plan", func(string) {})
	}
	res := runScenario(t, rp.Scenario, rp.Seed, rp.Plan, rp.Mode == "plan", trace)
	rep.Runs = 1
	rep.Counts = res.Counts
	rep.Unsupported = res.Unsupported
	if v := has(&res, Violation{rp.Property, rp.Class, ""}, nil); v != nil {
		rep.Reproduced = fmt.Sprintf("%x", res.LogHash) == rp.LogHash
		rep.Violation = &Replay{Property: v.Property, Class: v.Class, Message: v.Msg, LogHash: fmt.Sprintf("%x", res.LogHash)}
	}
	writeReport(j, rep)
}
