//go:build go1.25

// instr writes an instrumented copy of a module's non-test source and the overlay that makes the go
// command use it.
//
//	instr -repo DIR -out DIR -harness DIR
//
// Every statement gets a scheduling point, go statements start simulated tasks, map ranges follow a
// seeded order, recover() is watched, imports of packages that reach the outside world are redirected to
// their simulated counterparts, and package-level variables are registered so that every
// simulated process has its own.
package main

import (
	"bytes"
	"encoding/json"
	"flag"
	"fmt"
	"go/ast"
	"go/importer"
	"go/parser"
	"go/token"
	"go/types"
	"io"
	"log"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
)

var redirect = map[string]string{
	"os": "os", "io/ioutil": "ioutil", "path/filepath": "filepath", "sync": "sync", "sync/atomic": "atomic", "time": "time",
	"math/rand": "rand", "math/rand/v2": "randv2", "crypto/rand": "crand", "runtime": "runtime", "runtime/debug": "debug",
	"os/user": "user", "log": "log", "syscall": "syscall", "golang.org/x/sys/unix": "unix", "github.com/edsrzf/mmap-go": "mmap",
}

// localName is the name a redirected import has when the file does not give one.
var localName = map[string]string{"math/rand/v2": "rand", "crypto/rand": "rand", "github.com/edsrzf/mmap-go": "mmap"}

// refused packages would reach the outside world unsimulated.
var refused = map[string]bool{"os/exec": true, "os/signal": true, "net": true, "net/http": true, "plugin": true, "log/syslog": true}

var counted = map[string]bool{"generateCache": true, "generateL1Cache": true}

type goPkg struct {
	ImportPath, Name, Dir, Export string
	GoFiles, CgoFiles             []string
	Standard                      bool
	Module                        *struct{ Path, Dir string }
	Imports                       []string
}

type edit struct {
	from, to int
	text     string
	seq      int
}

var (
	sites []string
	order int
	plain bool
)

func main() {
	log.SetFlags(0)
	log.SetPrefix("instr: ")
	repo := flag.String("repo", "", "module to instrument")
	out := flag.String("out", "", "output directory")
	harness := flag.String("harness", "", "directory with the harness's files")
	sim := flag.String("sim", "", "the powsim module")
	race := flag.Bool("race", false, "for a build with race detection")
	flag.BoolVar(&plain, "plain", false, "no scheduling points inside statements")
	flag.Parse()
	if err := os.MkdirAll(filepath.Join(*out, "src"), 0755); err != nil {
		log.Fatal(err)
	}

	cmd := exec.Command("go", "list", "-deps", "-export", "-json=ImportPath,Name,Dir,Export,GoFiles,CgoFiles,Standard,Module,Imports", "./...")
	cmd.Dir = *repo
	cmd.Stderr = os.Stderr
	b, err := cmd.Output()
	if err != nil {
		log.Fatal("go list: ", err)
	}
	var pkgs []*goPkg
	exports := map[string]string{}
	for dec := json.NewDecoder(bytes.NewReader(b)); ; {
		p := new(goPkg)
		if err := dec.Decode(p); err == io.EOF {
			break
		} else if err != nil {
			log.Fatal(err)
		}
		pkgs = append(pkgs, p)
		exports[p.ImportPath] = p.Export
	}
	overlay := map[string]string{}
	modPath := ""
	for _, p := range pkgs { // -deps lists dependencies first
		if p.Standard || p.Module == nil || p.Module.Dir != *repo {
			continue
		}
		modPath = p.Module.Path
		if len(p.CgoFiles) > 0 {
			log.Fatalf("%s uses cgo, which the simulator cannot run", p.ImportPath)
		}
		order++
		instrument(p, exports, *repo, *out, overlay)
	}
	hd := filepath.Join(*repo, "internal", "verifharness")
	hf, _ := filepath.Glob(filepath.Join(*harness, "*.go"))
	for _, f := range hf {
		overlay[filepath.Join(hd, filepath.Base(f))] = f
	}
	if *race {
		// the standard library's pools would order unrelated tasks, at random
		root, err := exec.Command("go", "env", "GOROOT").Output()
		if err != nil {
			log.Fatal("go env: ", err)
		}
		overlay[filepath.Join(strings.TrimSpace(string(root)), "src", "sync", "pool.go")] = filepath.Join(*sim, "race", "pool.go.txt")
	}
	write(filepath.Join(*out, "sites.json"), sites)
	write(filepath.Join(*out, "overlay.json"), map[string]interface{}{"Replace": overlay})

	mod, err := os.ReadFile(filepath.Join(*repo, "go.mod"))
	if err != nil {
		log.Fatal(err)
	}
	mod = append(mod, []byte("\nrequire powsim v0.0.0\n\nreplace powsim => "+*sim+"\n")...)
	if err := os.WriteFile(filepath.Join(*out, "go.mod"), mod, 0644); err != nil {
		log.Fatal(err)
	}
	sum, _ := os.ReadFile(filepath.Join(*repo, "go.sum"))
	if err := os.WriteFile(filepath.Join(*out, "go.sum"), sum, 0644); err != nil {
		log.Fatal(err)
	}
	fmt.Printf("instrumented %s: %d packages, %d scheduling points\n", modPath, order, len(sites))
}

func write(name string, v interface{}) {
	b, err := json.MarshalIndent(v, "", " ")
	if err == nil {
		err = os.WriteFile(name, b, 0644)
	}
	if err != nil {
		log.Fatal(err)
	}
}

type file struct {
	path  string
	src   []byte
	ast   *ast.File
	edits []edit
	tail  bytes.Buffer
}

func instrument(p *goPkg, exports map[string]string, repo, out string, overlay map[string]string) {
	fset := token.NewFileSet()
	imp := importer.ForCompiler(fset, "gc", func(path string) (io.ReadCloser, error) {
		e := exports[path]
		if e == "" {
			return nil, fmt.Errorf("no export data for %s", path)
		}
		return os.Open(e)
	})
	var files []*file
	var asts []*ast.File
	for _, n := range p.GoFiles {
		path := filepath.Join(p.Dir, n)
		src, err := os.ReadFile(path)
		if err != nil {
			log.Fatal(err)
		}
		a, err := parser.ParseFile(fset, path, src, parser.ParseComments|parser.SkipObjectResolution)
		if err != nil {
			log.Fatal(err)
		}
		files = append(files, &file{path: path, src: src, ast: a})
		asts = append(asts, a)
	}
	info := &types.Info{Types: map[ast.Expr]types.TypeAndValue{}, Defs: map[*ast.Ident]types.Object{}, Uses: map[*ast.Ident]types.Object{},
		Selections: map[*ast.SelectorExpr]*types.Selection{}, Scopes: map[ast.Node]*types.Scope{}}
	conf := types.Config{Importer: imp, FakeImportC: true}
	tp, err := conf.Check(p.ImportPath, fset, asts, info)
	if err != nil {
		log.Fatalf("type-checking %s: %v", p.ImportPath, err)
	}
	inits := 0
	var initCalls []string
	decls := map[token.Pos]*ast.FuncDecl{}
	for _, a := range asts {
		for _, d := range a.Decls {
			if fd, ok := d.(*ast.FuncDecl); ok {
				decls[fd.Name.Pos()] = fd
			}
		}
	}
	for _, f := range files {
		x := &xform{f: f, fset: fset, info: info, tp: tp, rel: rel(repo, f.path), decls: decls}
		x.imports()
		ast.Inspect(f.ast, func(n ast.Node) bool {
			if l, ok := n.(*ast.FuncLit); ok {
				x.lits = append(x.lits, l)
			}
			return true
		})
		ast.Inspect(f.ast, x.visit)
		for _, d := range f.ast.Decls {
			fd, ok := d.(*ast.FuncDecl)
			if !ok {
				continue
			}
			if fd.Recv == nil && fd.Name.Name == "init" && fd.Body != nil {
				inits++
				n := fmt.Sprintf("_vinit%d", inits)
				x.replace(fd.Name.Pos(), fd.Name.End(), n)
				initCalls = append(initCalls, n)
			}
			if fd.Body != nil && counted[fd.Name.Name] {
				args := []string{"nil"}
				if fd.Recv != nil && len(fd.Recv.List) == 1 && len(fd.Recv.List[0].Names) == 1 && fd.Recv.List[0].Names[0].Name != "_" {
					args[0] = fd.Recv.List[0].Names[0].Name
				}
				for _, fl := range fd.Type.Params.List {
					for _, n := range fl.Names {
						if n.Name != "_" {
							args = append(args, n.Name)
						}
					}
				}
				list := strings.Join(append([]string{strconv.Quote(p.ImportPath[strings.LastIndex(p.ImportPath, "/")+1:] + "." + fd.Name.Name)}, args...), ", ")
				skip := ""
				if fd.Type.Results == nil {
					skip = " if _vrt.Skip(" + list + ") { return };"
				}
				x.insert(fd.Body.Lbrace+1, " defer _vrt.F("+list+")();"+skip)
			}
		}
	}
	// package-level variables
	byFile := map[*token.File]*file{}
	for _, f := range files {
		byFile[fset.File(f.ast.Pos())] = f
	}
	var ptrs, calls []string
	scope := tp.Scope()
	for _, n := range scope.Names() {
		if v, ok := scope.Lookup(n).(*types.Var); ok {
			if _, isType := v.Type().Underlying().(*types.TypeParam); !isType {
				ptrs = append(ptrs, "&"+n)
			}
		}
	}
	for i, in := range info.InitOrder {
		var lhs []string
		for _, v := range in.Lhs {
			lhs = append(lhs, v.Name())
		}
		f := byFile[fset.File(in.Rhs.Pos())]
		fn := fmt.Sprintf("_vreinit%d", i)
		a, b := fset.Position(in.Rhs.Pos()).Offset, fset.Position(in.Rhs.End()).Offset
		op := " = "
		if len(lhs) == 0 {
			lhs = []string{"_"}
		}
		rhs := string(f.src[a:b])
		if len(lhs) == 1 && lhs[0] != "_" {
			// keep the variable's type for untyped right-hand sides
			fmt.Fprintf(&f.tail, "\nfunc %s() { %s%s%s }\n", fn, lhs[0], op, rhs)
		} else {
			fmt.Fprintf(&f.tail, "\nfunc %s() { %s%s%s }\n", fn, strings.Join(lhs, ", "), op, rhs)
		}
		calls = append(calls, fn+"()")
	}
	for _, c := range initCalls {
		calls = append(calls, c+"()")
	}
	reg := files[0]
	if p.Name != "main" {
		fmt.Fprintf(&reg.tail, "\nfunc init() {\n")
		for _, c := range initCalls {
			fmt.Fprintf(&reg.tail, "\t%s()\n", c)
		}
		fmt.Fprintf(&reg.tail, "\t_vrt.RegisterGlobals(%d, %q, func() { %s }%s)\n}\n", order, p.ImportPath, strings.Join(calls, "; "), prefixed(ptrs))
	} else {
		fmt.Fprintf(&reg.tail, "\nfunc init() {\n\t_vrt.RegisterGlobals(%d, %q, func() { %s }%s)\n}\n", order, p.ImportPath, strings.Join(calls, "; "), prefixed(ptrs))
	}
	for _, f := range files {
		target := f.path
		if p.Name == "main" {
			// a copy that the harness can import
			x := &xform{f: f, fset: fset, info: info}
			name := "prog_" + strings.Map(func(r rune) rune {
				if r >= 'a' && r <= 'z' || r >= '0' && r <= '9' {
					return r
				}
				return '_'
			}, filepath.Base(p.Dir))
			x.replace(f.ast.Name.Pos(), f.ast.Name.End(), name)
			for _, d := range f.ast.Decls {
				if fd, ok := d.(*ast.FuncDecl); ok && fd.Recv == nil && fd.Name.Name == "main" {
					x.replace(fd.Name.Pos(), fd.Name.End(), "Main")
				}
			}
			target = filepath.Join(repo, "internal", "verifharness", name, filepath.Base(f.path))
		}
		text := f.render(fset)
		dst := filepath.Join(out, "src", strings.ReplaceAll(rel(repo, target), "/", "__"))
		if err := os.WriteFile(dst, text, 0644); err != nil {
			log.Fatal(err)
		}
		overlay[target] = dst
	}
}

func prefixed(s []string) string {
	if len(s) == 0 {
		return ""
	}
	return ", " + strings.Join(s, ", ")
}

func rel(repo, path string) string {
	r, err := filepath.Rel(repo, path)
	if err != nil {
		log.Fatal(err)
	}
	return r
}

func (f *file) render(fset *token.FileSet) []byte {
	sort.SliceStable(f.edits, func(i, j int) bool {
		if f.edits[i].from != f.edits[j].from {
			return f.edits[i].from < f.edits[j].from
		}
		// insertions before replacements at the same place, in order of creation
		ri, rj := f.edits[i].to > f.edits[i].from, f.edits[j].to > f.edits[j].from
		if ri != rj {
			return !ri
		}
		return f.edits[i].seq < f.edits[j].seq
	})
	var b bytes.Buffer
	pos := 0
	for _, e := range f.edits {
		if e.from < pos {
			log.Fatalf("%s: overlapping edits at offset %d (%q)", f.path, e.from, e.text)
		}
		b.Write(f.src[pos:e.from])
		b.WriteString(e.text)
		pos = e.to
	}
	b.Write(f.src[pos:])
	b.WriteString("\nvar _ = _vrt.Active\n")
	b.Write(f.tail.Bytes())
	return b.Bytes()
}

type xform struct {
	f    *file
	fset *token.FileSet
	info *types.Info
	tp   *types.Package
	rel  string
	seq  int
	tmp  int
	lits []*ast.FuncLit

	decls map[token.Pos]*ast.FuncDecl
}

func (x *xform) off(p token.Pos) int { return x.fset.Position(p).Offset }
func (x *xform) insert(p token.Pos, s string) {
	x.f.edits = append(x.f.edits, edit{x.off(p), x.off(p), s, len(x.f.edits)})
}
func (x *xform) replace(a, b token.Pos, s string) {
	x.f.edits = append(x.f.edits, edit{x.off(a), x.off(b), s, len(x.f.edits)})
}

func (x *xform) imports() {
	x.insert(x.f.ast.Name.End(), "; import _vrt \"powsim/rt\"")
	for _, s := range x.f.ast.Imports {
		path, _ := strconv.Unquote(s.Path.Value)
		if refused[path] {
			log.Fatalf("%s imports %s, which is not simulated", x.rel, path)
		}
		r, ok := redirect[path]
		if !ok {
			continue
		}
		t := strconv.Quote("powsim/shim/" + r)
		if s.Name == nil {
			n := localName[path]
			if n == "" {
				n = path[strings.LastIndex(path, "/")+1:]
			}
			t = n + " " + t
		}
		x.replace(s.Path.Pos(), s.Path.End(), t)
	}
}

func (x *xform) site(p token.Pos) string {
	q := x.fset.Position(p)
	sites = append(sites, fmt.Sprintf("%s:%d:%d", x.rel, q.Line, q.Column))
	return fmt.Sprintf("_vrt.Y(%d); ", len(sites)-1)
}

func (x *xform) stmts(l []ast.Stmt) {
	for _, s := range l {
		if e, ok := s.(*ast.EmptyStmt); ok && e.Implicit {
			continue
		}
		x.insert(s.Pos(), x.site(s.Pos()))
		if !plain {
			for _, u := range x.mapUses(s) {
				x.insert(s.Pos(), fmt.Sprintf("_vrt.M(%s, %v, %s); ", x.inner(s.Pos()), u.write, x.src(u.m)))
			}
			switch s := s.(type) {
			case *ast.IncDecStmt:
				x.incDec(s)
			case *ast.AssignStmt:
				x.assign(s)
			}
		}
	}
}

// ---- scheduling points inside statements: between the read and the write of a shared variable,
// between the writes of one assignment, and between the operands of && and ||

// trail inserts s after everything that inner nodes insert at the same place.
func (x *xform) trail(p token.Pos, s string) {
	x.f.edits = append(x.f.edits, edit{x.off(p), x.off(p), s, 1<<30 - len(x.f.edits)})
}

func (x *xform) src(n ast.Node) string { return string(x.f.src[x.off(n.Pos()):x.off(n.End())]) }

func (x *xform) inner(p token.Pos) string {
	q := x.fset.Position(p)
	sites = append(sites, fmt.Sprintf("%s:%d:%d+", x.rel, q.Line, q.Column))
	return strconv.Itoa(len(sites) - 1)
}

// foreignVar reports whether an identifier names a package's variable or one captured by a function literal.
func (x *xform) foreignVar(id *ast.Ident) bool {
	v, ok := x.info.Uses[id].(*types.Var)
	if !ok || v.IsField() {
		return false
	}
	if v.Pkg() != nil && v.Parent() == v.Pkg().Scope() {
		return true
	}
	for _, l := range x.lits {
		if l.Pos() <= id.Pos() && id.Pos() < l.End() && !(l.Pos() <= v.Pos() && v.Pos() < l.End()) {
			return true
		}
	}
	return false
}

// shared reports whether an operand without calls may be visible to other tasks.
func (x *xform) shared(e ast.Expr) bool {
	switch e := e.(type) {
	case *ast.Ident:
		return x.foreignVar(e)
	case *ast.ParenExpr:
		return x.shared(e.X)
	case *ast.StarExpr:
		return x.pure(e.X)
	case *ast.IndexExpr:
		t := x.info.Types[e.X].Type
		if t == nil {
			return false
		}
		_, ok := t.Underlying().(*types.Map)
		return ok && x.pure(e.X) && x.pure(e.Index) && x.shared(e.X)
	case *ast.SelectorExpr:
		if x.info.Selections[e] == nil {
			return x.foreignVar(e.Sel)
		}
		if !x.pure(e.X) {
			return false
		}
		if t := x.info.Types[e.X].Type; t != nil {
			if _, ok := t.Underlying().(*types.Pointer); ok {
				return true
			}
		}
		return x.shared(e.X)
	}
	return false
}

// pure reports whether an operand consists of names, selections, constants and map or slice elements.
func (x *xform) pure(e ast.Expr) bool {
	switch e := e.(type) {
	case *ast.Ident, *ast.BasicLit:
		return true
	case *ast.ParenExpr:
		return x.pure(e.X)
	case *ast.StarExpr:
		return x.pure(e.X)
	case *ast.SelectorExpr:
		return x.pure(e.X)
	case *ast.IndexExpr:
		return x.pure(e.X) && x.pure(e.Index)
	}
	return false
}

// reads reports whether an expression reads a shared variable or calls something, and whether it calls.
func (x *xform) reads(e ast.Expr) (reads, calls, odd bool) {
	ast.Inspect(e, func(n ast.Node) bool {
		switch n := n.(type) {
		case *ast.FuncLit:
			return false
		case *ast.CallExpr:
			if !x.info.Types[n.Fun].IsType() {
				reads, calls = true, true
			}
		case *ast.SelectorExpr:
			if x.shared(n) {
				reads = true
			}
		case *ast.StarExpr:
			reads = true
		case *ast.UnaryExpr:
			if n.Op == token.ARROW {
				reads, calls = true, true
			}
		case *ast.BinaryExpr:
			if (n.Op == token.SHL || n.Op == token.SHR) && x.info.Types[n.X].Value != nil {
				odd = true // its type comes from where the value goes
			}
		case *ast.Ident:
			if x.foreignVar(n) {
				reads = true
			}
		}
		return true
	})
	return
}

func (x *xform) incDec(n *ast.IncDecStmt) {
	if !x.shared(n.X) {
		return
	}
	x.tmp++
	v, t := fmt.Sprintf("_vv%d", x.tmp), x.src(n.X)
	x.replace(n.Pos(), n.End(), fmt.Sprintf("{ %s := %s; _vrt.Y(%s); %s = %s %s 1 }", v, t, x.inner(n.TokPos), t, v, n.Tok.String()[:1]))
}

func (x *xform) assign(n *ast.AssignStmt) {
	if n.Tok == token.DEFINE {
		return
	}
	if n.Tok != token.ASSIGN {
		_, calls, _ := x.reads(n.Rhs[0])
		if calls || !x.shared(n.Lhs[0]) {
			return
		}
		x.tmp++
		v, t := fmt.Sprintf("_vv%d", x.tmp), x.src(n.Lhs[0])
		op := n.Tok.String()
		x.replace(n.Pos(), n.Rhs[0].Pos(), fmt.Sprintf("{ %s := %s; _vrt.Y(%s); %s = %s %s (", v, t, x.inner(n.TokPos), t, v, op[:len(op)-1]))
		x.trail(n.Rhs[0].End(), ") }")
		return
	}
	some := false
	roots, names := map[string]bool{}, map[string]bool{}
	for _, l := range n.Lhs {
		if !x.pure(l) {
			return
		}
		if _, ok := l.(*ast.IndexExpr); ok && !x.shared(l) {
			return
		}
		some = some || x.shared(l)
		if id, ok := l.(*ast.Ident); ok {
			names[id.Name] = true
		} else {
			ast.Inspect(l, func(m ast.Node) bool {
				if id, ok := m.(*ast.Ident); ok {
					roots[id.Name] = true
				}
				return true
			})
		}
		if b, ok := l.(*ast.Ident); ok && b.Name == "_" {
			continue
		}
		if t := x.info.Types[l].Type; t != nil {
			if _, named := t.(*types.Named); named {
				if u, ok := t.Underlying().(*types.Basic); ok && u.Info()&types.IsBoolean != 0 {
					return
				}
			}
		}
	}
	if !some {
		return
	}
	for k := range names {
		if roots[k] {
			return // which variable is meant depends on the order
		}
	}
	if len(n.Lhs) > 1 && len(n.Rhs) == len(n.Lhs) {
		for _, l := range n.Lhs {
			// a selection's own base may be what the other side assigns to
			if s, ok := l.(*ast.SelectorExpr); ok {
				for _, o := range n.Lhs {
					if o != l && strings.HasPrefix(x.src(s), x.src(o)+".") {
						return
					}
				}
			}
		}
	}
	any := false
	for _, e := range n.Rhs {
		r, _, odd := x.reads(e)
		if odd {
			return
		}
		any = any || r
	}
	if !any && len(n.Lhs) == 1 {
		return
	}
	x.tmp++
	var tmps, news, vals []string
	direct := map[int]bool{}
	if len(n.Rhs) == len(n.Lhs) {
		for i, e := range n.Rhs {
			tv := x.info.Types[e]
			if tv.Value != nil || tv.IsNil() || isUntyped(tv.Type) {
				direct[i] = true
				if len(n.Rhs) == 1 {
					return
				}
			}
		}
	}
	for i, l := range n.Lhs {
		v := fmt.Sprintf("_vv%d_%d", x.tmp, i)
		if id, ok := l.(*ast.Ident); ok && id.Name == "_" {
			v = "_"
		}
		if direct[i] {
			v = x.src(n.Rhs[i])
		} else {
			tmps = append(tmps, v)
			if v != "_" {
				news = append(news, v)
			}
		}
		vals = append(vals, v)
	}
	if len(news) == 0 {
		return
	}
	x.replace(n.Pos(), n.Rhs[0].Pos(), "{ "+strings.Join(tmps, ", ")+" := ")
	if len(direct) > 0 {
		// leave the values without a temporary out
		first := true
		for i, e := range n.Rhs {
			if direct[i] {
				x.replace(e.Pos(), e.End(), "")
			}
			if i+1 < len(n.Rhs) {
				comma := ""
				if !direct[i] {
					first = false
				}
				if !first && !direct[i+1] {
					comma = ", "
				}
				x.replace(e.End(), n.Rhs[i+1].Pos(), comma)
			}
		}
	}
	tail := ""
	for i, l := range n.Lhs {
		if vals[i] == "_" {
			continue
		}
		if x.shared(l) {
			if ix, ok := l.(*ast.IndexExpr); ok {
				tail += "; _vrt.M(" + x.inner(l.Pos()) + ", true, " + x.src(ix.X) + ")"
			} else {
				tail += "; _vrt.Y(" + x.inner(l.Pos()) + ")"
			}
		}
		tail += "; " + x.src(l) + " = " + vals[i]
	}
	x.trail(n.Rhs[len(n.Rhs)-1].End(), tail+" }")
}

// ---- maps: the runtime ends the process when one task writes a map while another uses it

type use struct {
	m     ast.Expr
	write bool
}

// mapUse collects the maps that an expression uses; bad if synchronisation may happen within it.
type mapUse struct {
	x   *xform
	pos token.Pos
	out []use
	bad bool
}

func (u *mapUse) add(m ast.Expr, write bool) {
	t := u.x.info.Types[m].Type
	if t == nil || !u.x.pure(m) {
		return
	}
	if _, ok := t.Underlying().(*types.Map); !ok {
		return
	}
	ok := true
	ast.Inspect(m, func(n ast.Node) bool {
		if id, is := n.(*ast.Ident); is {
			if v, is := u.x.info.Uses[id].(*types.Var); is && !v.IsField() && v.Parent() != u.x.tp.Scope() && v.Pos() >= u.pos {
				ok = false // declared within the statement
			}
		}
		return ok
	})
	if ok {
		u.out = append(u.out, use{m, write})
	}
}

func (u *mapUse) visit(n ast.Node) bool {
	switch n := n.(type) {
	case *ast.FuncLit:
		return false
	case *ast.UnaryExpr:
		if n.Op == token.ARROW {
			u.bad = true
		}
	case *ast.BinaryExpr:
		if n.Op == token.LAND || n.Op == token.LOR {
			ast.Inspect(n.X, u.visit)
			return false
		}
	case *ast.IndexExpr:
		u.add(n.X, false)
	case *ast.CallExpr:
		f := u.x.info.Types[n.Fun]
		if f.IsBuiltin() {
			if id, ok := n.Fun.(*ast.Ident); ok && (id.Name == "delete" || id.Name == "clear") && len(n.Args) > 0 {
				u.add(n.Args[0], true)
			}
		} else if !f.IsType() && !u.x.quiet(n.Fun) {
			u.bad = true
		}
	}
	return true
}

// quiet reports whether a call cannot synchronise with other tasks, as far as can be seen.
func (x *xform) quiet(fun ast.Expr) bool {
	var id *ast.Ident
	switch f := fun.(type) {
	case *ast.Ident:
		id = f
	case *ast.SelectorExpr:
		id = f.Sel
	default:
		return false
	}
	fn, ok := x.info.Uses[id].(*types.Func)
	if !ok || fn.Pkg() == nil {
		return false
	}
	if fn.Pkg() != x.tp {
		switch strings.SplitN(fn.Pkg().Path(), "/", 2)[0] {
		case "bytes", "strings", "strconv", "fmt", "encoding", "math", "sort", "unicode", "hash":
			return true
		}
		return false
	}
	d := x.decls[fn.Pos()]
	if d == nil || d.Body == nil {
		return false
	}
	calm := true
	ast.Inspect(d.Body, func(n ast.Node) bool {
		switch n := n.(type) {
		case *ast.SelectorExpr:
			if t := x.info.Selections[n]; t != nil {
				if m, ok := t.Obj().(*types.Func); ok && m.Pkg() != nil && (m.Pkg() == x.tp || strings.HasPrefix(m.Pkg().Path(), "sync")) {
					calm = false
				}
			}
		case *ast.CallExpr:
			if id, ok := n.Fun.(*ast.Ident); ok {
				if g, ok := x.info.Uses[id].(*types.Func); ok && g.Pkg() == x.tp && g != fn {
					calm = false
				} else if _, ok := x.info.Uses[id].(*types.Var); ok {
					calm = false
				}
			}
		case *ast.UnaryExpr:
			if n.Op == token.ARROW {
				calm = false
			}
		case *ast.SendStmt, *ast.SelectStmt, *ast.GoStmt:
			calm = false
		}
		return calm
	})
	return calm
}

// mapUses lists the maps that a statement itself uses, apart from the statements in it.
func (x *xform) mapUses(s ast.Stmt) []use {
	u := &mapUse{x: x, pos: s.Pos()}
	var head func(s ast.Stmt)
	expr := func(es ...ast.Expr) {
		for _, e := range es {
			if e != nil {
				ast.Inspect(e, u.visit)
			}
		}
	}
	head = func(s ast.Stmt) {
		switch s := s.(type) {
		case *ast.AssignStmt:
			for _, l := range s.Lhs {
				if i, ok := l.(*ast.IndexExpr); ok {
					u.add(i.X, true)
					expr(i.X, i.Index)
				} else {
					expr(l)
				}
			}
			expr(s.Rhs...)
		case *ast.IncDecStmt:
			if i, ok := s.X.(*ast.IndexExpr); ok {
				u.add(i.X, true)
			}
			expr(s.X)
		case *ast.ExprStmt:
			expr(s.X)
		case *ast.ReturnStmt:
			expr(s.Results...)
		case *ast.DeclStmt:
			ast.Inspect(s, u.visit)
		case *ast.IfStmt:
			if s.Init != nil {
				head(s.Init)
			}
			expr(s.Cond)
		case *ast.SwitchStmt:
			if s.Init != nil {
				head(s.Init)
			}
			expr(s.Tag)
		case *ast.RangeStmt:
			expr(s.X)
		}
	}
	head(s)
	if u.bad {
		return nil
	}
	var out []use
	for _, a := range u.out {
		dup := false
		for i := range out {
			if x.src(out[i].m) == x.src(a.m) {
				out[i].write = out[i].write || a.write
				dup = true
			}
		}
		if !dup {
			out = append(out, a)
		}
	}
	return out
}

// shortCircuit puts a scheduling point between the operands of && and ||.
func (x *xform) shortCircuit(n *ast.BinaryExpr) {
	tv := x.info.Types[n]
	if plain || tv.Value != nil || n.Op != token.LAND && n.Op != token.LOR {
		return
	}
	if b, ok := tv.Type.(*types.Basic); !ok || b.Kind() != types.Bool && b.Kind() != types.UntypedBool {
		return
	}
	if b, ok := x.info.Types[n.Y].Type.(*types.Basic); !ok || b.Kind() != types.Bool && b.Kind() != types.UntypedBool {
		return
	}
	if r, _, _ := x.reads(n.Y); !r {
		return
	}
	u := &mapUse{x: x, pos: n.Pos()}
	ast.Inspect(n.Y, u.visit)
	if len(u.out) > 0 && !u.bad {
		var ms []string
		for _, m := range u.out {
			ms = append(ms, x.src(m.m))
		}
		x.insert(n.Y.Pos(), "(_vrt.MB("+x.inner(n.OpPos)+", "+strings.Join(ms, ", ")+") && ")
	} else {
		x.insert(n.Y.Pos(), "(_vrt.B("+x.inner(n.OpPos)+") && ")
	}
	x.trail(n.Y.End(), ")")
}

func (x *xform) visit(n ast.Node) bool {
	switch n := n.(type) {
	case *ast.BlockStmt:
		x.stmts(n.List)
	case *ast.SwitchStmt:
		x.clauses(n.Body)
		return x.rest(n.Init, n.Tag, n.Body)
	case *ast.TypeSwitchStmt:
		x.clauses(n.Body)
		return x.rest(n.Init, n.Assign, n.Body)
	case *ast.SelectStmt:
		x.clauses(n.Body)
		return x.rest(n.Body)
	case *ast.ForStmt:
		if len(n.Body.List) == 0 {
			x.insert(n.Body.Lbrace+1, x.site(n.Body.Lbrace))
		}
	case *ast.RangeStmt:
		if len(n.Body.List) == 0 {
			x.insert(n.Body.Lbrace+1, x.site(n.Body.Lbrace))
		}
		if t := x.info.Types[n.X].Type; t != nil {
			if m, ok := t.Underlying().(*types.Map); ok {
				x.mapRange(n, m)
			}
		}
	case *ast.BinaryExpr:
		x.shortCircuit(n)
	case *ast.GoStmt:
		x.goStmt(n)
	case *ast.CallExpr:
		if id, ok := n.Fun.(*ast.Ident); ok && id.Name == "recover" {
			if _, ok := x.info.Uses[id].(*types.Builtin); ok {
				x.insert(n.Pos(), "_vrt.Recover(")
				x.insert(n.End(), ")")
			}
		}
	}
	return true
}

// clauses instruments the bodies of a switch or select; its own block holds only clauses.
func (x *xform) clauses(b *ast.BlockStmt) {
	for _, s := range b.List {
		switch c := s.(type) {
		case *ast.CaseClause:
			x.stmts(c.Body)
		case *ast.CommClause:
			x.stmts(c.Body)
		}
	}
}

// rest walks the parts of a statement whose own block must not be treated as a list of statements.
func (x *xform) rest(parts ...ast.Node) bool {
	for _, p := range parts {
		switch p := p.(type) {
		case nil:
		case *ast.BlockStmt:
			for _, s := range p.List {
				ast.Inspect(s, x.visit)
			}
		default:
			if !isNil(p) {
				ast.Inspect(p, x.visit)
			}
		}
	}
	return false
}

func isNil(n ast.Node) bool {
	switch v := n.(type) {
	case ast.Stmt:
		return v == nil
	case ast.Expr:
		return v == nil
	}
	return n == nil
}

// typeText writes a type as it can be written in this file, or "".
func (x *xform) typeText(t types.Type) string {
	bad := false
	s := types.TypeString(t, func(p *types.Package) string {
		if p == x.tp {
			return ""
		}
		for _, is := range x.f.ast.Imports {
			path, _ := strconv.Unquote(is.Path.Value)
			if path != p.Path() {
				continue
			}
			if is.Name != nil {
				if is.Name.Name == "." {
					return ""
				}
				if is.Name.Name == "_" {
					break
				}
				return is.Name.Name
			}
			return p.Name()
		}
		bad = true
		return p.Name()
	})
	if bad || !packageLevel(t, x.tp, map[types.Type]bool{}) {
		return ""
	}
	// an alias at package level, where no local name can hide the type's
	aliases++
	n := fmt.Sprintf("_vtype%d", aliases)
	fmt.Fprintf(&x.f.tail, "\ntype %s = %s\n", n, s)
	return n
}

var aliases int

// packageLevel reports whether every named type in t is declared at package level.
func packageLevel(t types.Type, tp *types.Package, seen map[types.Type]bool) bool {
	if seen[t] {
		return true
	}
	seen[t] = true
	switch t := t.(type) {
	case *types.Named:
		o := t.Obj()
		return o.Pkg() == nil || o.Parent() == o.Pkg().Scope()
	case *types.Pointer:
		return packageLevel(t.Elem(), tp, seen)
	case *types.Slice:
		return packageLevel(t.Elem(), tp, seen)
	case *types.Array:
		return packageLevel(t.Elem(), tp, seen)
	case *types.Chan:
		return packageLevel(t.Elem(), tp, seen)
	case *types.Map:
		return packageLevel(t.Key(), tp, seen) && packageLevel(t.Elem(), tp, seen)
	case *types.Basic, *types.Interface:
		return true
	case *types.Struct:
		for i := 0; i < t.NumFields(); i++ {
			if !packageLevel(t.Field(i).Type(), tp, seen) {
				return false
			}
		}
		return true
	case *types.Signature:
		for _, tu := range []*types.Tuple{t.Params(), t.Results()} {
			for i := 0; i < tu.Len(); i++ {
				if !packageLevel(tu.At(i).Type(), tp, seen) {
					return false
				}
			}
		}
		return true
	}
	return false
}

func (x *xform) mapRange(n *ast.RangeStmt, m *types.Map) {
	kt, vt := x.typeText(m.Key()), x.typeText(m.Elem())
	blank := func(e ast.Expr) bool {
		if e == nil {
			return true
		}
		id, ok := e.(*ast.Ident)
		return ok && id.Name == "_"
	}
	hasK, hasV := !blank(n.Key), !blank(n.Value)
	if (hasK && kt == "") || (hasV && vt == "") {
		fmt.Fprintf(os.Stderr, "instr: %s: map range left in its native order\n", x.fset.Position(n.Pos()))
		return
	}
	x.tmp++
	it := fmt.Sprintf("_vit%d", x.tmp)
	src := func(e ast.Expr) string { return string(x.f.src[x.off(e.Pos()):x.off(e.End())]) }
	lhs, rhs := []string{it}, []string{}
	body := " "
	if hasK {
		k := src(n.Key)
		if n.Tok == token.DEFINE {
			lhs = append(lhs, k)
			rhs = append(rhs, "*new("+kt+")")
		}
		body += fmt.Sprintf("%s, _ = %s.K.(%s); ", k, it, kt)
	}
	if hasV {
		v := src(n.Value)
		if n.Tok == token.DEFINE {
			lhs = append(lhs, v)
			rhs = append(rhs, "*new("+vt+")")
		}
		body += fmt.Sprintf("%s, _ = %s.V.(%s); ", v, it, vt)
	}
	// for K, V := range M {  =>  for it, K, V := MapIter(M), *new(K), *new(V); it.Next(); {
	x.replace(n.For+3, n.X.Pos(), " "+strings.Join(lhs, ", ")+" := _vrt.MapIter(")
	tail := ")"
	for _, r := range rhs {
		tail += ", " + r
	}
	x.insert(n.X.End(), tail+"; "+it+".Next(); ")
	x.f.edits = append(x.f.edits, edit{x.off(n.Body.Lbrace) + 1, x.off(n.Body.Lbrace) + 1, body, -1})
}

func (x *xform) goStmt(n *ast.GoStmt) {
	c := n.Call
	x.tmp++
	id := x.tmp
	src := func(e ast.Expr) string { return string(x.f.src[x.off(e.Pos()):x.off(e.End())]) }
	tv := x.info.Types[c.Fun]
	callee := fmt.Sprintf("_vf%d", id)
	if tv.IsBuiltin() || tv.IsType() {
		callee = src(c.Fun)
		x.replace(n.Go, c.Fun.End(), "{ ")
	} else {
		x.replace(n.Go, c.Fun.Pos(), "{ "+callee+" := ")
	}
	end := c.Rparen
	var pass []string
	if len(c.Args) == 0 {
		x.replace(c.Lparen, c.Rparen+1, fmt.Sprintf("; _vrt.Go(func() { %s() }) }", callee))
		return
	}
	x.replace(c.Lparen, c.Args[0].Pos(), "; ")
	for i, a := range c.Args {
		atv := x.info.Types[a]
		name := fmt.Sprintf("_va%d_%d", id, i)
		tuple, isTuple := atv.Type.(*types.Tuple)
		switch {
		case isTuple:
			var names []string
			for j := 0; j < tuple.Len(); j++ {
				names = append(names, fmt.Sprintf("%s_%d", name, j))
			}
			x.insert(a.Pos(), strings.Join(names, ", ")+" := ")
			pass = append(pass, names...)
		case atv.Value != nil || atv.IsNil() || isUntyped(atv.Type) || atv.IsType():
			pass = append(pass, src(a))
			x.replace(a.Pos(), a.End(), "")
		default:
			x.insert(a.Pos(), name+" := ")
			pass = append(pass, name)
		}
		if i+1 < len(c.Args) {
			x.replace(a.End(), c.Args[i+1].Pos(), "; ")
		}
	}
	last := c.Args[len(c.Args)-1]
	dots := ""
	if c.Ellipsis.IsValid() {
		dots = "..."
	}
	x.replace(last.End(), end+1, fmt.Sprintf("; _vrt.Go(func() { %s(%s%s) }) }", callee, strings.Join(pass, ", "), dots))
}

func isUntyped(t types.Type) bool {
	b, ok := t.(*types.Basic)
	return ok && b.Info()&types.IsUntyped != 0
}
