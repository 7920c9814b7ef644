//go:build go1.22

package zzsim

import (
	"sort"
	"strings"

	"simkit/world"
)

func init() {
	scenarios[`C04`] = &Scenario{Gen: genC04, Run: runC04,
		Rule: `a case is a hierarchy in which 1-4 replacements, removals and creations of data files happen at chosen file operations or times of 1-3 clients, each with invocations of 1-4 lookups (library or REST, first found and merged, interpolated, several keys at once); non-trivial when a file changed while an invocation was in use`}
}

func genC04(g *Gen) *Spec {
	s := &Spec{Kind: g.Pick(`lib`, `lib`, `lib`, `rest`), Policy: g.Policy(), MaxSteps: 6000000}
	o := uopt{interp: true, options: true, mapped: true}
	s.U = g.Universe(o)
	// a file that two entries use counts as two sources, so every entry has a directory of its own
	s.U.Files = map[string]*DataFile{}
	for i, e := range s.U.Entries {
		e.DataDir = `d` + itoa(i)
		for _, p := range e.candidates() {
			if g.P(0.8) {
				s.U.Files[`/hiera/`+e.DataDir+`/`+p] = g.File(p, o)
			}
		}
	}
	if s.Kind == `lib` {
		s.Top = g.Pick(``, ``, `mux`, `mux-module`)
	}
	if s.Top == `mux-module` {
		g.modules(s, false)
	}
	s.Env = map[string]string{`HOME`: `/root`}
	for i := 1 + g.Intn(3); i > 0; i-- {
		var ops []*Op
		inv := 0
		scope := g.libOp()
		for k := 1 + g.Intn(4); k > 0; k-- {
			op := g.op(s.Kind)
			if s.Kind == `lib` {
				if k%2 == 0 || inv == 0 {
					inv++
				}
				op.Inv, op.Vars, op.Scope = inv, scope.Vars, scope.Scope
				if s.Top == `mux-module` && g.P(0.5) {
					op.Key = g.modKey()
				}
				if g.P(0.2) {
					op = &Op{Do: `all`, Inv: inv, Vars: scope.Vars, Scope: scope.Scope, Merge: op.Merge}
					for j := 2 + g.Intn(2); j > 0; j-- {
						op.Keys = append(op.Keys, g.Key())
					}
				}
			}
			if g.P(0.3) {
				op.DelayMs = g.Intn(8)
			}
			ops = append(ops, op)
		}
		s.Clients = append(s.Clients, ops)
	}
	// most changes should hit what is looked up
	deps := map[string]bool{}
	for _, c := range s.Clients {
		for _, op := range c {
			m := modelOf(s)
			m.op(s, op)
			for p := range m.deps {
				deps[p] = true
			}
		}
	}
	paths := sortedKeys(s.U.files())
	used := keysOf(deps)
	var hit []string
	for i := 1 + g.Intn(4); i > 0 && len(paths) > 0; i-- {
		p := paths[g.Intn(len(paths))]
		if len(used) > 0 && g.P(0.85) {
			p = used[g.Intn(len(used))]
		}
		if len(hit) > 1 {
			p = hit[g.Intn(len(hit))]
		}
		hit = append(hit, p)
		e := &Event{Path: p, Do: `put`}
		if g.P(0.2) {
			e.Do = `remove`
		} else {
			var ks []string
			if f := s.U.files()[p]; f != nil {
				ks = sortedKeys(f.Data)
			}
			if len(ks) > 0 && len(ks[0]) > 5 && s.Top == `mux-module` {
				e.File = g.moduleFile(strings.ToLower(strings.SplitN(ks[0], `::`, 2)[0]))
			} else {
				e.File = g.File(p, o)
			}
		}
		if g.P(0.7) {
			e.On = g.Pick(`stat `, `stat-done `, `open `, `open-done `, `read `, `read-done `, `read-done `)
			on := p
			if g.P(0.3) {
				on = paths[g.Intn(len(paths))]
			}
			e.On += on
			e.Nth = 1 + g.Intn(3)
		} else {
			e.AtMs = g.Intn(10)
		}
		s.Events = append(s.Events, e)
	}
	for _, p := range paths {
		if g.P(0.2) {
			s.Faults = append(s.Faults, &world.Fault{Op: g.Pick(`open`, `stat`), Path: p, Kind: `slow`, Ms: 1 + g.Intn(8)})
		}
	}
	return s
}

// dataOf finds the structured form of a version of a file.
func (s *Spec) dataOf(p string, n *world.Node) *DataFile {
	if n.Gen < 0 {
		return nil
	}
	t := string(n.Data)
	if f := s.U.files()[p]; f != nil && f.Text() == t {
		return f
	}
	for _, e := range s.Events {
		if e.Path == p && e.File != nil && e.File.Text() == t {
			return e.File
		}
	}
	return nil
}

// assignments calls f with every combination of versions, until it says true.
func assignments(vs map[string][]*DataFile, f func(a map[string]*DataFile) bool) bool {
	ps := make([]string, 0, len(vs))
	for p := range vs {
		ps = append(ps, p)
	}
	sort.Strings(ps)
	a := map[string]*DataFile{}
	var rec func(i int) bool
	rec = func(i int) bool {
		if i == len(ps) {
			return f(a)
		}
		for _, v := range vs[ps[i]] {
			a[ps[i]] = v
			if rec(i + 1) {
				return true
			}
		}
		return false
	}
	return rec(0)
}

func runC04(r *Run) {
	s := r.Spec
	changes := 0
	var ds []*Done
	var x *Exec
	r.Main(func(y *Exec) {
		x = y
		x.Install(true)
		if !x.Drive(func(d *Done) { ds = append(ds, d) }) {
			x.Fail(`stall`, `lookups do not end: %s`, x.S.Blocked())
		}
	})
	if r.Stop() {
		return
	}
	type inv struct{ client, n int }
	by := map[inv][]*Done{}
	var order []inv
	sort.SliceStable(ds, func(a, b int) bool { return ds[a].From < ds[b].From })
	for _, d := range ds {
		k := inv{d.Client, d.Op.Inv}
		if d.Op.Inv == 0 {
			k.n = -1 - d.N
		}
		if by[k] == nil {
			order = append(order, k)
		}
		by[k] = append(by[k], d)
	}
	touched := map[string]bool{}
	for _, e := range s.Events {
		touched[e.Path] = true
	}
	for _, k := range order {
		ops := by[k]
		vs := map[string][]*DataFile{}
		race := false
		n := 1
		for _, p := range keysOf(touched) {
			nodes := x.W.FS.Versions(p, ops[0].From, ops[len(ops)-1].To)
			for i, nd := range nodes {
				vs[p] = append(vs[p], s.dataOf(p, nd))
				if nd.Gen < 0 && i > 0 {
					race = true // removed between being found and being opened
				}
			}
			if len(nodes) > 1 {
				changes++
			}
			n *= len(nodes)
		}
		if n > 400 {
			continue
		}
		exp := map[int]Outcome{}
		ok := assignments(vs, func(a map[string]*DataFile) bool {
			for i, d := range ops {
				if race && d.Out.Status == `error` {
					continue
				}
				m := modelOf(s)
				for p, f := range a {
					if f == nil {
						delete(m.files, p)
					} else {
						m.files[p] = f
					}
				}
				w := m.op(s, d.Op)
				exp[i] = w
				if w.Status != `unknown` && !w.Same(d.Out) {
					return false
				}
			}
			return true
		})
		if ok {
			continue
		}
		msg := ``
		for i, d := range ops {
			msg += "\n  " + d.Op.id() + ` gives ` + d.Out.String()
			if n == 1 {
				msg += ` (expected ` + exp[i].String() + `)`
			}
		}
		if n == 1 {
			r.Fail(`wrong`, "an invocation during which no file changed does not give what the hierarchy defines:%s", msg)
		} else {
			r.Fail(`mixed`, "no choice of one version for each file explains the lookups of one invocation:%s", msg)
		}
		return
	}
	r.A.Nontriv = changes > 0
}
