// genalias writes aliases.go into a shim package: every exported object of the
// std package that the shim does not declare itself.
package main

import (
	"bytes"
	"fmt"
	"go/ast"
	"go/format"
	"go/importer"
	"go/parser"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"sort"
)

func main() {
	std, dir := os.Args[1], os.Args[2]
	fs := token.NewFileSet()
	have := map[string]bool{}
	pkgname := ""
	ms, _ := filepath.Glob(filepath.Join(dir, "*.go"))
	for _, f := range ms {
		if filepath.Base(f) == "aliases.go" {
			continue
		}
		a, err := parser.ParseFile(fs, f, nil, 0)
		if err != nil {
			panic(err)
		}
		pkgname = a.Name.Name
		for _, d := range a.Decls {
			switch d := d.(type) {
			case *ast.FuncDecl:
				if d.Recv == nil {
					have[d.Name.Name] = true
				}
			case *ast.GenDecl:
				for _, s := range d.Specs {
					switch s := s.(type) {
					case *ast.TypeSpec:
						have[s.Name.Name] = true
					case *ast.ValueSpec:
						for _, n := range s.Names {
							have[n.Name] = true
						}
					}
				}
			}
		}
	}
	p, err := importer.ForCompiler(fs, "source", nil).Import(std)
	if err != nil {
		panic(err)
	}
	var b bytes.Buffer
	fmt.Fprintf(&b, "// Code generated by cmd/genalias; DO NOT EDIT.\n\npackage %s\n\nimport std %q\n\n", pkgname, std)
	names := p.Scope().Names()
	sort.Strings(names)
	n := 0
	for _, name := range names {
		o := p.Scope().Lookup(name)
		if !o.Exported() || have[name] {
			continue
		}
		switch o := o.(type) {
		case *types.Const:
			fmt.Fprintf(&b, "const %s = std.%s\n", name, name)
		case *types.Var:
			fmt.Fprintf(&b, "var %s = std.%s\n", name, name)
		case *types.Func:
			if o.Type().(*types.Signature).TypeParams().Len() > 0 {
				continue
			}
			fmt.Fprintf(&b, "var %s = std.%s\n", name, name)
		case *types.TypeName:
			if nt, ok := o.Type().(*types.Named); ok && nt.TypeParams().Len() > 0 {
				continue
			}
			fmt.Fprintf(&b, "type %s = std.%s\n", name, name)
		}
		n++
	}
	if n == 0 {
		os.Remove(filepath.Join(dir, "aliases.go"))
		return
	}
	out, err := format.Source(b.Bytes())
	if err != nil {
		panic(err)
	}
	os.WriteFile(filepath.Join(dir, "aliases.go"), out, 0o644)
}
