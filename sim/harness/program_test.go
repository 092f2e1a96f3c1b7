//go:build go1.25

package verifharness

import (
	"flag"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"io"
	"os"
	"strconv"
	"strings"

	prog "github.com/sencha-dev/powkit/internal/verifharness/prog_gen_lookup"

	"powsim/ref"
	"powsim/rt"
	sos "powsim/shim/os"
)

// The lookup-table generator.

func init() {
	// the flags and the arguments belong to a process
	rt.RegisterGlobals(0, "flag", func() {
		flag.CommandLine = flag.NewFlagSet("gen-lookup", flag.PanicOnError)
		flag.CommandLine.SetOutput(io.Discard)
	}, &flag.CommandLine, &os.Args, &sos.Args)
}

const workDir = "/work"

// program runs the generator as a process of its own: it ends with an exit status.
func (r *Run) program(ps *procState, op Op) {
	os.Args = append([]string{"gen-lookup"}, ps.spec.Args...)
	sos.Args = os.Args
	r.s.Logf("%s starts: %s", rt.Cur().Name, strings.Join(ps.spec.Args, " "))
	prog.Main()
	rt.Exit(0)
}

type tableArgs struct {
	pkg                 string
	epochs              int
	mix, ci, cg, di, dg uint64
	miss                bool
}

func (a tableArgs) args() []string {
	u := func(n string, v uint64) []string { return []string{"-" + n, strconv.FormatUint(v, 10)} }
	var s []string
	if a.pkg != "" {
		s = append(s, "-package="+a.pkg)
	}
	if a.epochs != 2048 || !a.miss {
		s = append(s, "-epochs", strconv.Itoa(a.epochs))
	}
	for _, x := range [][]string{u("mixBytes", a.mix), u("cacheInit", a.ci), u("cacheGrowth", a.cg), u("datasetInit", a.di), u("datasetGrowth", a.dg)} {
		s = append(s, x...)
	}
	return s
}

func parseArgs(s []string) (a tableArgs) {
	f := flag.NewFlagSet("", flag.PanicOnError)
	f.StringVar(&a.pkg, "package", "", "")
	f.IntVar(&a.epochs, "epochs", 2048, "")
	f.Uint64Var(&a.mix, "mixBytes", 128, "")
	f.Uint64Var(&a.ci, "cacheInit", 0, "")
	f.Uint64Var(&a.cg, "cacheGrowth", 0, "")
	f.Uint64Var(&a.di, "datasetInit", 0, "")
	f.Uint64Var(&a.dg, "datasetGrowth", 0, "")
	f.Parse(s)
	return
}

// checkTable compares a generated file with the formulas.
func checkTable(b []byte, a tableArgs) error {
	fset := token.NewFileSet()
	f, err := parser.ParseFile(fset, "", b, 0)
	if err != nil {
		return fmt.Errorf("it does not parse: %v", err)
	}
	if f.Name.Name != a.pkg {
		return fmt.Errorf("it is of package %s", f.Name.Name)
	}
	got := map[string][]uint64{}
	for _, d := range f.Decls {
		g, ok := d.(*ast.GenDecl)
		if !ok {
			continue
		}
		for _, s := range g.Specs {
			v, ok := s.(*ast.ValueSpec)
			if !ok || len(v.Names) != 1 || len(v.Values) != 1 {
				continue
			}
			c, ok := v.Values[0].(*ast.CompositeLit)
			if !ok {
				continue
			}
			l := []uint64{}
			for _, e := range c.Elts {
				lit, ok := e.(*ast.BasicLit)
				if !ok {
					return fmt.Errorf("%s has an element that is not a number", v.Names[0].Name)
				}
				n, err := strconv.ParseUint(lit.Value, 0, 64)
				if err != nil {
					return err
				}
				l = append(l, n)
			}
			got[v.Names[0].Name] = l
		}
	}
	p := ref.Params{Kind: "ethash", DatasetInit: a.di, DatasetGrowth: a.dg, Mix: a.mix, CacheInit: a.ci, CacheGrowth: a.cg, EpochLength: 1, SeedEpochLength: 1}
	for n, size := range map[string]func(ref.Params, uint64) uint64{"cacheSizes": ref.CacheSize, "datasetSizes": ref.DatasetSize} {
		l, ok := got[n]
		if !ok {
			return fmt.Errorf("%s is missing", n)
		}
		if len(l) != a.epochs {
			return fmt.Errorf("%s has %d values, want %d", n, len(l), a.epochs)
		}
		for i, x := range l {
			if w := sizeOf(p, size, n, uint64(i)); x != w {
				return fmt.Errorf("%s[%d] is %d, want %d", n, i, x, w)
			}
		}
	}
	return nil
}

type sizeKey struct {
	p ref.Params
	n string
	e uint64
}

var sizeMemo = map[sizeKey]uint64{}

func sizeOf(p ref.Params, f func(ref.Params, uint64) uint64, n string, e uint64) uint64 {
	k := sizeKey{p, n, e}
	v, ok := sizeMemo[k]
	if !ok {
		if len(sizeMemo) > 500000 {
			sizeMemo = map[sizeKey]uint64{}
		}
		v = f(p, e)
		sizeMemo[k] = v
	}
	return v
}

var tableKinds = []tableArgs{
	{mix: 128, ci: 1 << 24, cg: 1 << 17, di: 1 << 30, dg: 1 << 23},
	{mix: 128, ci: 1 << 24, cg: 1 << 17, di: 1<<30 + 1<<29, dg: 1 << 23},
	{mix: 256, ci: 1 << 24, cg: 1 << 16, di: 1 << 32, dg: 1 << 24},
	{mix: 128, ci: 4096, cg: 256, di: 1 << 16, dg: 1 << 12},
	{mix: 128, ci: 1 << 12, cg: 1 << 7, di: 1 << 15, dg: 1 << 13},
}

func init() {
	register(&Check{
		ID:      "C17",
		Classes: "table hang",
		Gen: func(r *rt.Rand, sc *Scenario) {
			sc.Pol = policy(r)
			sc.Pol.ErrKinds = rt.Pick(r, []string{"", "write", "write", "close", "create,open", "rename,link", "fsync,msync", "mmap,truncate,fallocate", "stat", "write,close"})
			if r.P(0.75) {
				sc.Pol.PErr, sc.Pol.MaxErrs = rt.Pick(r, []float64{0.05, 0.3, 1}), rt.Pick(r, []int{1, 1, 3, 50})
			}
			if r.P(0.25) {
				sc.Pol.PFull = rt.Pick(r, []float64{0.1, 0.5, 1})
			}
			if r.P(0.1) {
				sc.Pol.PKill, sc.Pol.MaxKills = 0.01, 1
			}
			pkgs := []string{"ethash", "kawpow", "x"}
			n := 1 + r.Intn(3)
			for f := 0; f < n; f++ {
				var ph Phase
				used := map[string]bool{}
				for k := 1 + r.Intn(2)*r.Intn(2); k > 0; k-- {
					a := rt.Pick(r, tableKinds)
					a.pkg = rt.Pick(r, pkgs)
					if used[a.pkg] {
						continue
					}
					used[a.pkg] = true
					a.epochs = rt.Pick(r, []int{0, 1, 2, 3, 4, 5, 6, 9, 10, 11, 37, 100, 101})
					if r.P(0.08) {
						a.epochs, a.miss = 2048, r.P(0.5)
					} else if r.P(0.012) {
						a.epochs = rt.Pick(r, []int{4097, 5001, 6000})
					}
					if r.P(0.03) {
						a.pkg = ""
					}
					p := ProcSpec{Name: fmt.Sprintf("g%d", len(sc.Procs)), Rand: uint64(r.Intn(3)), Args: a.args()}
					ph.Tasks = append(ph.Tasks, TaskSpec{Proc: len(sc.Procs), Ops: []Op{{K: "program"}}})
					sc.Procs = append(sc.Procs, p)
				}
				name := workDir + "/" + rt.Pick(r, pkgs) + "_lookup.go"
				if r.P(0.3) {
					switch r.Intn(5) {
					case 0:
						ph.Acts = append(ph.Acts, Act{K: "dir", Path: name})
					case 1:
						ph.Acts = append(ph.Acts, Act{K: "link", Path: name, Arg: rt.Pick(r, []string{"/nowhere/x", "/tmp/target.go", name})})
					case 2:
						ph.Acts = append(ph.Acts, Act{K: "readonly", Path: name, Arg: "package old\n"})
					default:
						s := "package old\n\nvar cacheSizes = []uint64{1}\n"
						if r.P(0.7) {
							s += strings.Repeat("// a longer file was here\n", 1+r.Intn(3000))
						}
						ph.Acts = append(ph.Acts, Act{K: "file", Path: name, Arg: s})
					}
				}
				if r.P(0.15) {
					ph.Acts = append(ph.Acts, Act{K: "deny", Path: rt.Pick(r, []string{"open", "create", "write", "close", "rename", "fsync", "stat"}), Arg: rt.Pick(r, []string{"EACCES", "EIO", "ENOSPC", "EROFS"})})
				} else if r.P(0.5) {
					ph.Acts = append(ph.Acts, Act{K: "allow"})
				}
				if r.P(0.1) {
					ph.Acts = append(ph.Acts, Act{K: "full", N: int64(r.Intn(2))})
				}
				sc.Phases = append(sc.Phases, ph)
			}
		},
		Setup: func(r *Run) {
			r.fs.LossyClose = true
			if r.fs.Node(workDir) == nil {
				r.fs.Put(workDir, nil, true)
			}
		},
		PhaseEnd: func(r *Run, i int) {
			for _, t := range r.sc.Phases[i].Tasks {
				ps := r.procs[t.Proc]
				if ps.p == nil || len(t.Ops) == 0 {
					continue
				}
				if !ps.p.Exited {
					r.probe("ended_otherwise")
					continue
				}
				if ps.p.ExitCode != 0 {
					r.probe("reported_failure")
					continue
				}
				r.probe("reported_success")
				a := parseArgs(ps.spec.Args)
				path := workDir + "/" + a.pkg + "_lookup.go"
				for k := 0; k < 4; k++ {
					if n := r.fs.Node(path); n != nil && n.Link != "" {
						path = n.Link
					}
				}
				n := r.fs.Node(path)
				if n == nil || n.Dir || n.Link != "" {
					r.fail("table", "%s exited with success but there is no file %s", ps.spec.Name, path)
					continue
				}
				if err := checkTable(r.fs.Bytes(n), a); err != nil {
					r.fail("table", "%s (%s) exited with success, but of %s: %v", ps.spec.Name, strings.Join(ps.spec.Args, " "), path, err)
				}
			}
		},
	})
}
