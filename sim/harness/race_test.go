//go:build go1.25

package verifharness

import (
	"fmt"
	"os"
	"regexp"
	"strings"

	"powsim/rt"
)

// ---- C29: no two accesses to the same memory, one of them a write, are unordered -----------
//
// The tree is built with the race detector. The simulator's own hand-overs are hidden from it, so that what
// orders two accesses is only what the code under test does: locks, channels, atomics, starting goroutines.

func init() {
	register(&Check{
		ID:      "C29",
		Classes: "race",
		Gen:     gen29,
	})
}

func gen29(r *rt.Rand, sc *Scenario) {
	if r.P(0.35) {
		sc.Pol = policy(r)
		genOther(r, sc, otherKinds)
		return
	}
	sc.Pol = policy(r)
	if r.P(0.4) {
		sc.Pol.PGC, sc.Pol.MaxGC = 0.02, 3
	}
	n := 1 + r.Intn(2)
	p := one("p")
	for i := 0; i < n; i++ {
		if i > 0 && r.P(0.4) {
			sc.Clients = append(sc.Clients, sc.Clients[i-1])
		} else if r.P(0.15) {
			sc.Clients = append(sc.Clients, shipped(r))
		} else {
			c := light(r, storage(r, 0.5))
			c.Caches = 1 + r.Intn(3)
			sc.Clients = append(sc.Clients, c)
		}
		p.Clients = append(p.Clients, i)
	}
	sc.Procs = []ProcSpec{p}
	someErrors(r, sc, 0.3)
	base, span := uint64(r.Intn(3)), 1+r.Intn(4)
	for f := 1 + r.Intn(2); f > 0; f-- {
		var ph Phase
		for k := 2 + r.Intn(3); k > 0; k-- {
			var t TaskSpec
			for o := 1 + r.Intn(4); o > 0; o-- {
				c := r.Intn(n)
				t.Ops = append(t.Ops, call(r, sc, c, c, base+uint64(r.Intn(span))))
			}
			ph.Tasks = append(ph.Tasks, t)
		}
		ph.GC = r.P(0.3)
		sc.Phases = append(sc.Phases, ph)
	}
}

var (
	raceSeen int
	raceRead int64
	raceLine = regexp.MustCompile(`^\s+(\S*?/)?([^/\s]+\.go:\d+)`)
)

// races adds what the race detector has reported since the last call.
func races(check string, res *Result) {
	n := rt.RaceErrors()
	if n == raceSeen {
		return
	}
	raceSeen = n
	path := fmt.Sprintf("%s.%d", os.Getenv("POWSIM_RACELOG"), os.Getpid())
	b, err := os.ReadFile(path)
	if err != nil {
		panic(err)
	}
	text := string(b[min(raceRead, int64(len(b))):])
	raceRead = int64(len(b))
	seen := map[string]bool{}
	for _, rep := range strings.Split(text, "WARNING: DATA RACE")[1:] {
		m := describe(rep)
		if m != "" && !seen[m] && len(res.Viol) < 8 {
			seen[m] = true
			res.Viol = append(res.Viol, Violation{Property: check, Class: "race", Msg: m})
		}
	}
}

// The simulator is not watched, but the runtime and the standard library report accesses that it makes through
// them while it is called by the code under test. Accesses made in these packages are therefore left out; the
// maps of the code under test are watched by rt.M.
var unwatched = regexp.MustCompile(`^(runtime|internal|reflect|fmt|strconv|sort|strings|slices|maps|hash/fnv|sync|errors|unicode|os|syscall|time|testing|io|path|encoding/json|regexp|iter|cmp|powsim)[./(]`)

// describe turns a report into one line: the two accesses and where the repository makes them. It is empty for
// a report that does not concern the code under test.
func describe(rep string) string {
	var parts []string
	what, fn, part := "", "", ""
	top := false
	end := func() bool {
		ok := what == "" || part != ""
		if part != "" {
			parts = append(parts, part)
		}
		what, part = "", ""
		return ok
	}
	for _, l := range strings.Split(rep, "\n") {
		switch {
		case strings.HasPrefix(l, "Goroutine ") || strings.HasPrefix(l, "===="):
			if !end() {
				return ""
			}
		case len(l) > 0 && l[0] != ' ' && strings.Contains(l, " at 0x"):
			if !end() {
				return ""
			}
			what, top = strings.ToLower(l[:strings.Index(l, " at 0x")]), true
		case what != "" && strings.HasPrefix(l, "  ") && !strings.HasPrefix(l, "   "):
			fn = strings.TrimSpace(l)
			if top && strings.Contains(fn, "powsim/rt.Caller") {
				part = what + " by the caller"
			}
			if top && part == "" && unwatched.MatchString(fn) && !strings.HasPrefix(fn, "sync/atomic.") {
				return ""
			}
			top = false
		case what != "" && part == "" && strings.HasPrefix(fn, "github.com/sencha-dev/powkit/") && !strings.Contains(fn, "verifharness"):
			part = what + " in " + strings.TrimPrefix(fn, "github.com/sencha-dev/powkit/")
			if m := raceLine.FindStringSubmatch(l); m != nil {
				part += " (" + m[2] + ")"
			}
		}
	}
	if !end() || len(parts) < 2 || strings.HasSuffix(parts[0], "caller") && strings.HasSuffix(parts[1], "caller") {
		return ""
	}
	return "data race: " + strings.Join(parts, ", ")
}
