//go:build go1.25

// reexport writes zz_reexport.go in a shim directory: every exported name of the real package that
// the shim does not define itself.
package main

import (
	"bytes"
	"fmt"
	"go/ast"
	"go/format"
	"go/importer"
	"go/parser"
	"go/token"
	"go/types"
	"log"
	"os"
	"path/filepath"
	"sort"
	"strings"
)

var pure = map[string]bool{"BytePtrFromString": true, "ByteSliceFromString": true, "Getpagesize": true, "NsecToTimespec": true,
	"NsecToTimeval": true, "TimespecToNsec": true, "TimevalToNsec": true, "ByteSliceToString": true, "BytePtrToString": true, "ErrnoName": true, "SignalName": true,
	"ClockGettime": false}

func main() {
	if len(os.Args) != 3 {
		log.Fatal("usage: reexport PKG DIR")
	}
	pkg, dir := os.Args[1], os.Args[2]
	have := map[string]bool{}
	fset := token.NewFileSet()
	files, _ := filepath.Glob(filepath.Join(dir, "*.go"))
	name := ""
	for _, f := range files {
		if strings.HasSuffix(f, "zz_reexport.go") {
			continue
		}
		a, err := parser.ParseFile(fset, f, nil, 0)
		if err != nil {
			log.Fatal(err)
		}
		name = a.Name.Name
		for _, d := range a.Decls {
			switch d := d.(type) {
			case *ast.FuncDecl:
				if d.Recv == nil {
					have[d.Name.Name] = true
				}
			case *ast.GenDecl:
				for _, s := range d.Specs {
					switch s := s.(type) {
					case *ast.TypeSpec:
						have[s.Name.Name] = true
					case *ast.ValueSpec:
						for _, n := range s.Names {
							have[n.Name] = true
						}
					}
				}
			}
		}
	}
	p, err := importer.ForCompiler(fset, "source", nil).Import(pkg)
	if err != nil {
		log.Fatal(err)
	}
	var b bytes.Buffer
	fmt.Fprintf(&b, "//go:build go1.25\n\n// Code generated by reexport; DO NOT EDIT.\n\npackage %s\n\nimport zzreal %q\n\n", name, pkg)
	var names []string
	for _, n := range p.Scope().Names() {
		if token.IsExported(n) && !have[n] {
			names = append(names, n)
		}
	}
	sort.Strings(names)
	used := false
	for _, n := range names {
		switch o := p.Scope().Lookup(n).(type) {
		case *types.Const:
			fmt.Fprintf(&b, "const %s = zzreal.%s\n", n, n)
			used = true
		case *types.Var:
			fmt.Fprintf(&b, "var %s = zzreal.%s\n", n, n)
			used = true
		case *types.TypeName:
			if nt, ok := o.Type().(*types.Named); ok && nt.TypeParams().Len() > 0 {
				continue
			}
			fmt.Fprintf(&b, "type %s = zzreal.%s\n", n, n)
			used = true
		case *types.Func:
			if o.Type().(*types.Signature).TypeParams().Len() > 0 {
				continue
			}
			if (pkg == "syscall" || pkg == "golang.org/x/sys/unix") && !pure[n] {
				continue // it would reach the real system
			}
			fmt.Fprintf(&b, "var %s = zzreal.%s\n", n, n)
			used = true
		}
	}
	out := filepath.Join(dir, "zz_reexport.go")
	if !used {
		os.Remove(out)
		return
	}
	src, err := format.Source(b.Bytes())
	if err != nil {
		log.Fatal(err)
	}
	if err := os.WriteFile(out, src, 0644); err != nil {
		log.Fatal(err)
	}
}
