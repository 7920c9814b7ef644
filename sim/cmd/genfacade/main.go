// Command genfacade writes zz_std.go into each facade package: everything the standard package exports that the
// facade does not define itself.
package main

import (
	"bytes"
	"fmt"
	"go/ast"
	"go/format"
	"go/importer"
	"go/parser"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strings"
)

var facades = [][2]string{
	{`os`, `simos`}, {`os/exec`, `simexec`}, {`io/ioutil`, `simioutil`}, {`path/filepath`, `simfilepath`}, {`net`, `simnet`},
	{`net/http`, `simhttp`}, {`time`, `simtime`}, {`syscall`, `simsyscall`}, {`context`, `simcontext`}, {`os/signal`, `simsignal`}, {`fmt`, `simfmt`}, {`log`, `simlog`},
}

func main() {
	root := os.Args[1]
	imp := importer.ForCompiler(token.NewFileSet(), `source`, nil)
	for _, f := range facades {
		pkg, err := imp.Import(f[0])
		if err != nil {
			panic(err)
		}
		dir := filepath.Join(root, `facade`, f[1])
		own := map[string]bool{}
		fs := token.NewFileSet()
		ms, _ := filepath.Glob(filepath.Join(dir, `*.go`))
		for _, m := range ms {
			if filepath.Base(m) == `zz_std.go` {
				continue
			}
			af, err := parser.ParseFile(fs, m, nil, 0)
			if err != nil {
				panic(err)
			}
			for _, d := range af.Decls {
				switch d := d.(type) {
				case *ast.FuncDecl:
					if d.Recv == nil {
						own[d.Name.Name] = true
					}
				case *ast.GenDecl:
					for _, s := range d.Specs {
						switch s := s.(type) {
						case *ast.TypeSpec:
							own[s.Name.Name] = true
						case *ast.ValueSpec:
							for _, n := range s.Names {
								own[n.Name] = true
							}
						}
					}
				}
			}
		}
		var lines []string
		sc := pkg.Scope()
		names := sc.Names()
		sort.Strings(names)
		for _, n := range names {
			o := sc.Lookup(n)
			if !o.Exported() || own[n] || n == `ForkLock` {
				continue
			}
			switch o := o.(type) {
			case *types.TypeName:
				if nt, ok := o.Type().(*types.Named); ok && nt.TypeParams().Len() > 0 {
					continue
				}
				lines = append(lines, fmt.Sprintf(`type %s = std.%s`, n, n))
			case *types.Func:
				if o.Type().(*types.Signature).TypeParams().Len() > 0 {
					continue
				}
				lines = append(lines, fmt.Sprintf(`var %s = std.%s`, n, n))
			case *types.Var:
				lines = append(lines, fmt.Sprintf(`var %s = std.%s`, n, n))
			case *types.Const:
				lines = append(lines, fmt.Sprintf(`const %s = std.%s`, n, n))
			}
		}
		if len(lines) == 0 {
			_ = os.Remove(filepath.Join(dir, `zz_std.go`))
			continue
		}
		var b bytes.Buffer
		fmt.Fprintf(&b, "// Code generated by genfacade; DO NOT EDIT.\n\npackage %s\n\nimport std %q\n\n%s\n", f[1], f[0], strings.Join(lines, "\n"))
		src, err := format.Source(b.Bytes())
		if err != nil {
			panic(err)
		}
		if err := os.WriteFile(filepath.Join(dir, `zz_std.go`), src, 0644); err != nil {
			panic(err)
		}
		fmt.Println(f[1], len(lines))
	}
}
