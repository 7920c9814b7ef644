// Package instr rewrites Go source so that it runs under the simulator: every statement becomes a scheduling
// point, goroutines, channels and map iteration go through the scheduler, and the packages that reach the operating
// system are replaced by facades. It works on the type-checked syntax tree and edits the text in place, so that it
// follows whatever the code under test does today.
package instr

import (
	"fmt"
	"go/ast"
	"go/build/constraint"
	"go/parser"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
)

// Mode says how much of a package is instrumented.
type Mode struct {
	Imports map[string]string // import path -> facade path
	Yield   string            // "", "Yield", "YieldLow"
	Chan    bool              // rewrite go statements, channels, selects
	Maps    bool              // rewrite map ranges
	Label   string            // prefix of site names
	Skip    map[string]bool   // base names of files that get no yields
	Low     map[string]bool   // base names of files that get YieldLow
	MapType string            // name of a type that is a map; its methods are accesses to it
	Writes  map[string]bool   // and which of these write
}

type edit struct {
	pos, end int
	text     func() string
}

type file struct {
	m     Mode
	fset  *token.FileSet
	f     *ast.File
	src   []byte
	info  *types.Info
	edits []edit
	n     int
	uses  bool
	yield string
	base  string
	nosub map[ast.Node]bool
}

// Package rewrites all files of a type-checked package. It returns new content by file name.
func Package(m Mode, fset *token.FileSet, files []*ast.File, names []string, info *types.Info) (map[string][]byte, error) {
	out := map[string][]byte{}
	for i, af := range files {
		src, err := os.ReadFile(names[i])
		if err != nil {
			return nil, err
		}
		base := filepath.Base(names[i])
		f := &file{m: m, fset: fset, f: af, src: src, info: info, base: base, yield: m.Yield, nosub: map[ast.Node]bool{}}
		if m.Skip[base] {
			f.yield = ``
		}
		if m.Low[base] {
			f.yield = `YieldLow`
		}
		bs, err := f.rewrite()
		if err != nil {
			return nil, fmt.Errorf(`%s: %s`, names[i], err)
		}
		out[names[i]] = bs
	}
	return out, nil
}

func (f *file) off(p token.Pos) int { return f.fset.PositionFor(p, false).Offset }

func (f *file) site(p token.Pos) string {
	po := f.fset.PositionFor(p, false)
	return strconv.Quote(f.m.Label + filepath.Base(po.Filename) + `:` + strconv.Itoa(po.Line))
}

func (f *file) ins(p token.Pos, s string) { f.rep(p, p, s) }

func (f *file) rep(a, b token.Pos, s string) {
	f.edits = append(f.edits, edit{f.off(a), f.off(b), func() string { return s }})
}

func (f *file) repf(a, b token.Pos, fn func() string) {
	f.edits = append(f.edits, edit{f.off(a), f.off(b), fn})
}

// render returns the text of a range with the edits inside of it applied.
func (f *file) render(a, b int) string {
	var es []edit
	for _, e := range f.edits {
		if e.pos >= a && e.end <= b {
			es = append(es, e)
		}
	}
	sort.SliceStable(es, func(i, j int) bool {
		if es[i].pos != es[j].pos {
			return es[i].pos < es[j].pos
		}
		// insertions come before replacements; among replacements the widest comes first
		ii, jj := es[i].end == es[i].pos, es[j].end == es[j].pos
		if ii != jj {
			return ii
		}
		return es[i].end > es[j].end
	})
	var sb strings.Builder
	at := a
	for _, e := range es {
		if e.pos < at {
			continue // inside of a range that has been replaced
		}
		sb.Write(f.src[at:e.pos])
		sb.WriteString(e.text())
		at = e.end
	}
	sb.Write(f.src[at:b])
	return sb.String()
}

func (f *file) renderNode(n ast.Node) string { return f.inner(f.off(n.Pos()), f.off(n.End())) }

// inner renders a range without the insertions that sit exactly at its start because of an enclosing statement.
func (f *file) inner(a, b int) string { return f.render(a, b) }

func (f *file) rewrite() ([]byte, error) {
	for _, im := range f.f.Imports {
		p, _ := strconv.Unquote(im.Path.Value)
		to, ok := f.m.Imports[p]
		if !ok {
			continue
		}
		name := ``
		if im.Name != nil {
			name = im.Name.Name
			f.rep(im.Name.Pos(), im.Path.End(), name+` `+strconv.Quote(to))
		} else {
			name = p[strings.LastIndexByte(p, '/')+1:]
			f.rep(im.Path.Pos(), im.Path.End(), name+` `+strconv.Quote(to))
		}
	}
	for _, d := range f.f.Decls {
		if fd, ok := d.(*ast.FuncDecl); ok && f.m.MapType != `` && fd.Body != nil {
			f.mapMethod(fd)
		}
		f.walk(d)
	}
	if f.uses {
		f.ins(f.f.Name.End(), "; import zzsimrt \"simkit/simrt\"")
	}
	body := f.render(0, len(f.src))
	if f.uses {
		return f.buildLine(body)
	}
	return []byte(body), nil
}

// buildLine raises the language version of the file so that the generic runtime functions can be used, while the
// semantics of loop variables stay what they are in the module.
func (f *file) buildLine(body string) ([]byte, error) {
	var expr constraint.Expr
	var plus constraint.Expr
	lines := strings.Split(body, "\n")
	pkgLine := f.fset.PositionFor(f.f.Package, false).Line - 1
	for i := 0; i < pkgLine && i < len(lines); i++ {
		l := strings.TrimSpace(lines[i])
		if constraint.IsGoBuild(l) {
			e, err := constraint.Parse(l)
			if err != nil {
				return nil, err
			}
			expr = e
			lines[i] = ``
		} else if constraint.IsPlusBuild(l) {
			e, err := constraint.Parse(l)
			if err != nil {
				return nil, err
			}
			if plus == nil {
				plus = e
			} else {
				plus = &constraint.AndExpr{X: plus, Y: e}
			}
			lines[i] = ``
		}
	}
	if expr == nil {
		expr = plus
	}
	head := `go1.18`
	if expr != nil {
		head = `(` + expr.String() + `) && go1.18`
	}
	// Everything stays on its line, so that panics still point to the original source.
	return []byte("//go:build " + head + "\n\n//line " + f.base + ":1\n" + strings.Join(lines, "\n")), nil
}

func (f *file) rt(fn string) string { f.uses = true; return `zzsimrt.` + fn }

func (f *file) tmp() string { f.n++; return `zz` + strconv.Itoa(f.n) }

func (f *file) stmts(ls []ast.Stmt) {
	for _, s := range ls {
		if f.yield != `` {
			switch s.(type) {
			case *ast.EmptyStmt, *ast.CaseClause, *ast.CommClause:
				continue
			}
			f.ins(s.Pos(), f.rt(f.yield)+`(`+f.site(s.Pos())+`); `)
			if f.m.Maps && f.m.Chan && f.yield == `Yield` {
				f.mapUses(s)
			}
		}
	}
}

func (f *file) walk(n ast.Node) {
	if n == nil {
		return
	}
	ast.Inspect(n, func(n ast.Node) bool {
		switch n := n.(type) {
		case *ast.BlockStmt:
			f.stmts(n.List)
		case *ast.CaseClause:
			f.stmts(n.Body)
		case *ast.CommClause:
			f.stmts(n.Body)
		case *ast.GoStmt:
			if f.m.Chan {
				f.goStmt(n)
			}
		case *ast.SendStmt:
			if f.m.Chan && !f.nosub[n] {
				f.ins(n.Pos(), f.rt(`SendTo`)+`(`)
				f.rep(n.Chan.End(), n.Value.Pos(), `)(`)
				f.ins(n.End(), `)`)
			}
		case *ast.AssignStmt:
			if f.m.Chan && len(n.Lhs) == 2 && len(n.Rhs) == 1 {
				if u := recvOf(n.Rhs[0]); u != nil && !f.nosub[u] {
					f.nosub[u] = true
					f.rep(u.OpPos, u.X.Pos(), f.rt(`Recv2`)+`(`)
					f.ins(u.X.End(), `)`)
				}
			}
		case *ast.ValueSpec:
			if f.m.Chan && len(n.Names) == 2 && len(n.Values) == 1 {
				if u := recvOf(n.Values[0]); u != nil && !f.nosub[u] {
					f.nosub[u] = true
					f.rep(u.OpPos, u.X.Pos(), f.rt(`Recv2`)+`(`)
					f.ins(u.X.End(), `)`)
				}
			}
		case *ast.UnaryExpr:
			if f.m.Chan && n.Op == token.ARROW && !f.nosub[n] {
				f.rep(n.OpPos, n.X.Pos(), f.rt(`Recv`)+`(`)
				f.ins(n.X.End(), `)`)
			}
		case *ast.CallExpr:
			if se, ok := ast.Unparen(n.Fun).(*ast.SelectorExpr); ok && f.m.Maps && se.Sel.Name == `MapKeys` && len(n.Args) == 0 {
				if fn, ok := f.info.Uses[se.Sel].(*types.Func); ok && fn.Pkg() != nil && fn.Pkg().Path() == `reflect` {
					f.ins(n.Pos(), f.rt(`MapKeys`)+`(`)
					f.ins(n.End(), `)`)
				}
			}
			if f.m.Chan {
				if id, ok := ast.Unparen(n.Fun).(*ast.Ident); ok && id.Name == `close` {
					if _, ok := f.info.Uses[id].(*types.Builtin); ok {
						f.rep(n.Fun.Pos(), n.Fun.End(), f.rt(`Close`))
					}
				}
			}
		case *ast.LabeledStmt:
			switch s := n.Stmt.(type) {
			case *ast.SelectStmt:
				if f.m.Chan {
					f.selectStmt(s, n)
				}
			case *ast.RangeStmt:
				f.rangeStmt(s, n)
			}
		case *ast.SelectStmt:
			if f.m.Chan && !f.nosub[n] {
				f.selectStmt(n, nil)
			}
		case *ast.RangeStmt:
			if !f.nosub[n] {
				f.rangeStmt(n, nil)
			}
		}
		return true
	})
}

// mapMethod marks a method of a type that is a map as an access to it.
func (f *file) mapMethod(fd *ast.FuncDecl) {
	if fd.Recv == nil || len(fd.Recv.List) != 1 || len(fd.Recv.List[0].Names) != 1 || fd.Recv.List[0].Names[0].Name == `_` {
		return
	}
	se, ok := fd.Recv.List[0].Type.(*ast.StarExpr)
	if !ok {
		return
	}
	if id, ok := se.X.(*ast.Ident); ok && id.Name == f.m.MapType {
		f.ins(fd.Body.Lbrace+1, f.rt(`MapObj`)+`(`+f.site(fd.Pos())+`, `+strconv.FormatBool(f.m.Writes[fd.Name.Name])+`, `+fd.Recv.List[0].Names[0].Name+`); `)
	}
}

// mapUses inserts, in front of a statement, the announcement of its uses of Go maps that may be shared.
func (f *file) mapUses(s ast.Stmt) {
	writes := map[ast.Expr]bool{}
	seen := map[string]bool{}
	look := func(n ast.Node) {
		if n == nil {
			return
		}
		ast.Inspect(n, func(n ast.Node) bool {
			var m ast.Expr
			w := false
			switch n := n.(type) {
			case *ast.FuncLit, *ast.BlockStmt, *ast.CaseClause, *ast.CommClause:
				return false
			case *ast.AssignStmt:
				for _, l := range n.Lhs {
					writes[ast.Unparen(l)] = true
				}
			case *ast.IncDecStmt:
				writes[ast.Unparen(n.X)] = true
			case *ast.IndexExpr:
				m, w = n.X, writes[n]
			case *ast.RangeStmt:
				m = n.X
			case *ast.CallExpr:
				if id, ok := ast.Unparen(n.Fun).(*ast.Ident); ok && len(n.Args) > 0 && (id.Name == `delete` || id.Name == `len` || id.Name == `clear`) {
					if _, ok := f.info.Uses[id].(*types.Builtin); ok {
						m, w = n.Args[0], id.Name != `len`
					}
				}
			}
			if m == nil {
				return true
			}
			tv, ok := f.info.Types[m]
			if !ok || tv.Type == nil {
				return true
			}
			if _, ok := tv.Type.Underlying().(*types.Map); !ok || !f.simple(m, s) {
				return true
			}
			txt := string(f.src[f.off(m.Pos()):f.off(m.End())])
			if k := txt + strconv.FormatBool(w); !seen[k] {
				seen[k] = true
				f.ins(s.Pos(), f.rt(`MapAccess`)+`(`+f.site(s.Pos())+`, `+strconv.FormatBool(w)+`, func() interface{} { return `+txt+` }); `)
			}
			return true
		})
	}
	switch s := s.(type) {
	case *ast.IfStmt:
		if s.Init != nil {
			look(s.Init)
		}
		look(s.Cond)
	case *ast.ForStmt, *ast.SelectStmt, *ast.LabeledStmt, *ast.GoStmt, *ast.DeferStmt, *ast.BlockStmt:
	case *ast.SwitchStmt:
		if s.Init != nil {
			look(s.Init)
		}
		if s.Tag != nil {
			look(s.Tag)
		}
	case *ast.TypeSwitchStmt:
		if s.Init != nil {
			look(s.Init)
		}
		look(s.Assign)
	case *ast.RangeStmt:
		look(s)
	default:
		look(s)
	}
}

// simple tells if an expression consists of variables and fields only, all known before the statement.
func (f *file) simple(e ast.Expr, s ast.Stmt) bool {
	switch e := ast.Unparen(e).(type) {
	case *ast.Ident:
		v, ok := f.info.Uses[e].(*types.Var)
		return ok && (v.Pos() < s.Pos() || v.Pkg() == nil || v.Parent() == v.Pkg().Scope())
	case *ast.SelectorExpr:
		if id, ok := e.X.(*ast.Ident); ok {
			if _, ok := f.info.Uses[id].(*types.PkgName); ok {
				return false
			}
		}
		return f.simple(e.X, s)
	case *ast.StarExpr:
		return f.simple(e.X, s)
	}
	return false
}

func recvOf(e ast.Expr) *ast.UnaryExpr {
	u, ok := ast.Unparen(e).(*ast.UnaryExpr)
	if ok && u.Op == token.ARROW {
		return u
	}
	return nil
}

// constant tells if the expression must not be hoisted into a variable.
func (f *file) constant(e ast.Expr) bool {
	tv, ok := f.info.Types[e]
	return ok && (tv.Value != nil || tv.IsNil() || tv.IsType())
}

func (f *file) goStmt(n *ast.GoStmt) {
	c := n.Call
	name := f.site(n.Pos())
	if id, ok := ast.Unparen(c.Fun).(*ast.Ident); ok {
		name = strconv.Quote(id.Name + `@` + strings.Trim(name, `"`))
		if _, ok := f.info.Uses[id].(*types.Builtin); ok {
			f.rep(n.Go, c.Pos(), f.rt(`Go`)+`(`+name+`, func() { `)
			f.ins(n.End(), ` })`)
			return
		}
	} else if se, ok := ast.Unparen(c.Fun).(*ast.SelectorExpr); ok {
		name = strconv.Quote(se.Sel.Name + `@` + strings.Trim(name, `"`))
	}
	if _, ok := ast.Unparen(c.Fun).(*ast.FuncLit); ok && len(c.Args) == 0 {
		f.rep(n.Go, c.Pos(), f.rt(`Go`)+`(`+name+`, `)
		f.rep(c.Fun.End(), c.End(), `)`)
		return
	}
	id := f.tmp()
	lhs, call := []string{id + `f`}, []string{}
	for i, a := range c.Args {
		if f.constant(a) {
			call = append(call, string(f.src[f.off(a.Pos()):f.off(a.End())]))
			continue
		}
		v := id + `a` + strconv.Itoa(i)
		lhs = append(lhs, v)
		if c.Ellipsis.IsValid() && i == len(c.Args)-1 {
			call = append(call, v+`...`)
		} else {
			call = append(call, v)
		}
	}
	f.rep(n.Go, c.Pos(), `{ `+strings.Join(lhs, `, `)+` := `)
	at := c.Fun.End()
	for _, a := range c.Args {
		if f.constant(a) {
			continue
		}
		f.rep(at, a.Pos(), `, `)
		at = a.End()
	}
	f.rep(at, c.End(), `; `+f.rt(`Go`)+`(`+name+`, func() { `+id+`f(`+strings.Join(call, `, `)+`) }) }`)
}

func (f *file) selectStmt(n *ast.SelectStmt, label *ast.LabeledStmt) {
	f.nosub[n] = true
	f.uses = true
	start := n.Pos()
	lab := ``
	if label != nil {
		start = label.Pos()
		lab = label.Label.Name + `: `
	}
	if len(n.Body.List) == 0 {
		f.rep(n.Pos(), n.End(), f.rt(`BlockForever`)+`()`)
		return
	}
	id := f.tmp()
	type hoist struct {
		name string
		e    ast.Expr
	}
	var hs []hoist
	var cases []func() string
	hasDefault := false
	used := false
	for _, cl := range n.Body.List {
		cc := cl.(*ast.CommClause)
		if cc.Comm == nil {
			hasDefault = true
			continue
		}
		i := len(cases)
		ch := id + `c` + strconv.Itoa(i)
		head := func(s string) string {
			used = true
			return `case ` + strconv.Itoa(i) + `: _, _ = ` + id + `v, ` + id + `ok; ` + s
		}
		switch st := cc.Comm.(type) {
		case *ast.SendStmt:
			f.nosub[st] = true
			hs = append(hs, hoist{ch, st.Chan})
			val := ``
			if f.constant(st.Value) {
				val = string(f.src[f.off(st.Value.Pos()):f.off(st.Value.End())])
			} else {
				val = id + `x` + strconv.Itoa(i)
				hs = append(hs, hoist{val, st.Value})
			}
			cases = append(cases, func() string { return f.rt(`CaseSend`) + `(` + ch + `)(` + val + `)` })
			f.rep(cc.Case, cc.Colon+1, head(``))
		case *ast.ExprStmt:
			u := recvOf(st.X)
			f.nosub[u] = true
			hs = append(hs, hoist{ch, u.X})
			cases = append(cases, func() string { return f.rt(`CaseRecv`) + `(` + ch + `)` })
			f.rep(cc.Case, cc.Colon+1, head(``))
		case *ast.AssignStmt:
			u := recvOf(st.Rhs[0])
			f.nosub[u] = true
			hs = append(hs, hoist{ch, u.X})
			cases = append(cases, func() string { return f.rt(`CaseRecv`) + `(` + ch + `)` })
			rhs := f.rt(`SelVal`) + `(` + ch + `, ` + id + `v)`
			if len(st.Lhs) == 2 {
				rhs += `, ` + id + `ok`
			}
			f.repf(cc.Case, cc.Colon+1, func() string {
				var ls []string
				for _, l := range st.Lhs {
					ls = append(ls, f.render(f.off(l.Pos()), f.off(l.End())))
				}
				return head(strings.Join(ls, `, `) + ` ` + st.Tok.String() + ` ` + rhs + `; `)
			})
		}
	}
	_ = used
	f.repf(start, n.Body.Lbrace+1, func() string {
		var sb strings.Builder
		sb.WriteString(`{ `)
		for _, h := range hs {
			sb.WriteString(h.name + ` := ` + f.render(f.off(h.e.Pos()), f.off(h.e.End())) + `; `)
		}
		var cs []string
		for _, c := range cases {
			cs = append(cs, c())
		}
		sb.WriteString(lab + `switch ` + id + `i, ` + id + `v, ` + id + `ok := ` + f.rt(`Select`) + `(` + strconv.FormatBool(hasDefault) +
			strings.Join(append([]string{``}, cs...), `, `) + `); ` + id + `i {`)
		return sb.String()
	})
	tail := `} }`
	if !hasDefault {
		tail = `default: panic("unreachable") } }`
	} else if len(cases) == 0 {
		// keep the variables used
		for _, cl := range n.Body.List {
			f.ins(cl.(*ast.CommClause).Colon+1, ` _, _ = `+id+`v, `+id+`ok;`)
		}
	}
	f.rep(n.Body.Rbrace, n.Body.Rbrace+1, tail)
}

func (f *file) rangeStmt(n *ast.RangeStmt, label *ast.LabeledStmt) {
	f.nosub[n] = true
	tv, ok := f.info.Types[n.X]
	if !ok {
		return
	}
	start := n.Pos()
	lab := ``
	if label != nil {
		start = label.Pos()
		lab = label.Label.Name + `: `
	}
	src := func(e ast.Expr) string { return f.render(f.off(e.Pos()), f.off(e.End())) }
	blank := func(e ast.Expr) bool {
		if e == nil {
			return true
		}
		id, ok := e.(*ast.Ident)
		return ok && id.Name == `_`
	}
	switch tv.Type.Underlying().(type) {
	case *types.Chan:
		if !f.m.Chan {
			return
		}
		id := f.tmp()
		f.repf(start, n.Body.Lbrace+1, func() string {
			h := `{ ` + id + `c := ` + src(n.X) + `; ` + lab + `for { `
			if blank(n.Key) {
				h += `_, ` + id + `ok := ` + f.rt(`Recv2`) + `(` + id + `c); if !` + id + `ok { break }; `
			} else if n.Tok == token.DEFINE {
				h += src(n.Key) + `, ` + id + `ok := ` + f.rt(`Recv2`) + `(` + id + `c); if !` + id + `ok { break }; `
			} else {
				h += `var ` + id + `ok bool; ` + src(n.Key) + `, ` + id + `ok = ` + f.rt(`Recv2`) + `(` + id + `c); if !` + id + `ok { break }; `
			}
			return h
		})
		f.uses = true
		f.rep(n.Body.Rbrace, n.Body.Rbrace+1, `} }`)
	case *types.Map:
		if !f.m.Maps {
			return
		}
		id := f.tmp()
		f.uses = true
		f.repf(start, n.Body.Lbrace+1, func() string {
			h := `{ ` + id + `m := ` + src(n.X) + `; `
			k, v := id+`k`, id+`v`
			pre := ``
			if n.Tok == token.DEFINE {
				switch {
				case !blank(n.Key) && !blank(n.Value):
					k, v = src(n.Key), src(n.Value)
					h += k + `, ` + v + ` := ` + f.rt(`ZeroKV`) + `(` + id + `m); `
				case !blank(n.Key):
					k = src(n.Key)
					h += k + ` := ` + f.rt(`ZeroK`) + `(` + id + `m); `
					v = `_`
				case !blank(n.Value):
					v = src(n.Value)
					h += k + `, ` + v + ` := ` + f.rt(`ZeroKV`) + `(` + id + `m); `
				default:
					h += k + ` := ` + f.rt(`ZeroK`) + `(` + id + `m); `
					v = `_`
				}
			} else {
				h += k + ` := ` + f.rt(`ZeroK`) + `(` + id + `m); `
				if !blank(n.Key) {
					pre = src(n.Key) + ` = ` + k + `; `
				}
				if !blank(n.Value) {
					v = src(n.Value)
				} else {
					v = `_`
				}
			}
			h += lab + `for _, ` + k + ` = range ` + f.rt(`Keys`) + `(` + id + `m) { `
			h += `var ` + id + `ok bool; if ` + v + `, ` + id + `ok = ` + id + `m[` + k + `]; !` + id + `ok { continue }; ` + pre
			return h
		})
		f.rep(n.Body.Rbrace, n.Body.Rbrace+1, `} }`)
	}
}

// Check type-checks the files of one package.
func Check(path string, fset *token.FileSet, names []string, imp types.Importer, goVersion string) ([]*ast.File, *types.Info, error) {
	var files []*ast.File
	for _, n := range names {
		f, err := parser.ParseFile(fset, n, nil, parser.ParseComments)
		if err != nil {
			return nil, nil, err
		}
		files = append(files, f)
	}
	info := &types.Info{Types: map[ast.Expr]types.TypeAndValue{}, Uses: map[*ast.Ident]types.Object{}, Defs: map[*ast.Ident]types.Object{},
		FileVersions: map[*ast.File]string{}}
	cfg := types.Config{Importer: imp, GoVersion: goVersion}
	if _, err := cfg.Check(path, fset, files, info); err != nil {
		return nil, nil, err
	}
	return files, info, nil
}
