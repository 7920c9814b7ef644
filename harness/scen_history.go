//go:build go1.22

package zzsim

import (
	"strings"

	"simkit/world"
)

func init() {
	scenarios[`C12`] = &Scenario{Gen: genC12, Run: runC12,
		Rule: `a case is a hierarchy with 1-2 concurrent clients, each with a series of 2-6 lookups that share invocations and sessions (library, REST or command line), some of which fail: by a transient I/O fault, a failing session function or plugin call, a broken source, a bad key, a bad interpolation, an unknown merge, a conversion or a recursion; non-trivial when a lookup failed before another one that did not`}
}

// genC12 draws series of lookups of which some fail.
func genC12(g *Gen) *Spec {
	s := &Spec{Kind: g.Pick(`lib`, `lib`, `lib`, `rest`, `cli`), Policy: g.Policy(), MaxSteps: 6000000, Env: map[string]string{`HOME`: `/root`}}
	o := uopt{interp: true, options: true, mapped: true, broken: g.P(0.2), funcs: s.Kind == `lib`, pcore: s.Kind == `cli`, more: g.P(0.4)}
	s.U = g.Universe(o)
	if s.Kind == `lib` {
		s.Top = g.Pick(``, ``, `mux`, `mux-module`)
	}
	if s.Top == `mux-module` {
		g.modules(s, false)
	}
	if s.Kind == `lib` && g.P(0.3) {
		s.U.Plugins = map[string]*Plugin{`/plug/one`: {Funcs: map[string][]string{`lookup_key`: {`plk`}, `data_hash`: {`phash`}}}}
		st := &StartB{}
		for k := g.Intn(3); k > 0; k-- {
			st.Calls = append(st.Calls, &Call{Nth: 1 + g.Intn(6), Do: g.Pick(`500`, `reset`, `badjson`, `truncate`, `hang`)})
		}
		s.U.Plugins[`/plug/one`].Starts = []*StartB{st}
		e := &Entry{Name: `plug`, Kind: `lookup_key`, Fn: `plk`, PluginFile: `/plug/one`}
		if g.P(0.4) {
			e.Kind, e.Fn = `data_hash`, `phash`
		}
		i := g.Intn(len(s.U.Entries) + 1)
		s.U.Entries = append(s.U.Entries[:i:i], append([]*Entry{e}, s.U.Entries[i:]...)...)
	}
	if s.Kind == `lib` && g.P(0.25) {
		// mapped paths with something to examine while the scope is extended
		s.U.Entries = append([]*Entry{{Name: `mapped`, Mapped: []string{`roles`, g.Pick(`r`, `x`), `role/%{r}%{x}.yaml`}}}, s.U.Entries...)
	}
	// what fails by itself, and what shows what a failure left behind
	f := g.File(``, o)
	f.Data[`c0`] = `%{lookup('c1')}`
	f.Data[`c1`] = `%{alias('c` + itoa(g.Intn(3)) + `')}`
	f.Data[`c2`] = `%{lookup('c` + itoa(g.Intn(3)) + `')}`
	f.Data[`bad0`] = `%{nosuch('x')}`
	f.Data[`bad1`] = `x %{alias('s0')}`
	f.Data[`bad2`] = []interface{}{`a`, `%{lookup('s0')}`, `%{nosuch("x")}`}
	f.Data[`show`] = `[%{r}|%{x}|%{env}|%{y}]`
	f.Data[`conv`] = g.Tag(`v`)
	f.Data[`sens`] = g.Tag(`v`)
	f.Data[`sensbad`] = `%{lookup('bad0')}`
	f.Data[`nest`] = `%{lookup('s0')} %{lookup('show')} %{lookup('i0')}`
	lo, _ := f.Data[`lookup_options`].(map[string]interface{})
	if lo == nil {
		lo = map[string]interface{}{}
	}
	integer, sensitive := `int`, `sensitive`
	if o.pcore {
		integer, sensitive = `Integer`, `Sensitive`
	}
	lo[`conv`] = map[string]interface{}{`convert_to`: integer}
	lo[`sens`] = map[string]interface{}{`convert_to`: sensitive}
	lo[`sensbad`] = map[string]interface{}{`convert_to`: sensitive}
	if g.P(0.2) {
		lo[`badmerge`] = map[string]interface{}{`merge`: `nosuch`}
	}
	f.Data[`lookup_options`] = lo
	s.U.Files[`trouble.yaml`] = f
	s.U.Entries = append(s.U.Entries, &Entry{Name: `trouble`, Path: `trouble.yaml`})

	key := func() string {
		switch g.Intn(10) {
		case 0, 1, 2:
			return g.Pick(`c0`, `c1`, `c2`, `bad0`, `bad1`, `bad2`, `conv`, `sensbad`, `sensbad`, `badmerge`)
		case 3, 4:
			return g.Pick(`show`, `nest`, `sens`, `show`, `show`)
		case 5:
			return g.Pick(`x..y`, `'x`, `0.a`, `a.'b`)
		case 6:
			if s.U.Plugins != nil {
				return g.Pick(`p0`, `p1`, `ph.a`)
			}
		case 7:
			if s.Top == `mux-module` {
				return g.modKey()
			}
		}
		return g.Key()
	}
	n := 1 + g.Intn(2)
	if s.Kind == `cli` {
		n = 1
	}
	for i := 0; i < n; i++ {
		var ops []*Op
		inv := 1
		first := g.op(s.Kind)
		ex := g.Pick(``, ``, `data`, `both`, `options`)
		for k := 2 + g.Intn(5); k > 0; k-- {
			op := g.op(s.Kind)
			op.Key = key()
			if s.Kind == `cli` && strings.HasPrefix(op.Key, `lookup_options`) {
				op.Key = `s0`
			}
			if s.Kind == `lib` {
				if g.P(0.15) {
					inv++
					first = g.op(s.Kind)
					ex = g.Pick(``, ``, `data`, `both`, `options`)
				}
				op.Inv, op.Vars, op.Scope, op.Explain = inv, first.Vars, first.Scope, ex
			}
			if g.P(0.06) {
				op.Merge = g.Pick(`nosuch`, `Unique`)
			}
			ops = append(ops, op)
		}
		s.Clients = append(s.Clients, ops)
	}
	for k := g.Intn(3); k > 0; k-- {
		for _, f := range g.IOFaults(s.U, 1) {
			if f.Op == `readdir` || s.U.files()[f.Path] == nil && f.Path != s.U.config() {
				continue // a directory for a glob
			}
			if f.Nth == 0 && f.Kind != `short` {
				f.Nth = 1 + g.Intn(4)
			}
			s.Faults = append(s.Faults, f)
		}
	}
	for _, e := range s.U.Entries {
		if e.Mapped != nil && g.P(0.6) {
			ls := e.candidates()
			f := &world.Fault{Op: `stat`, Path: `/hiera/data/` + ls[g.Intn(len(ls))], Nth: 1 + g.Intn(2), Kind: g.Pick(`EIO`, `EACCES`)}
			if e.Name == `mapped` {
				// any of those that the template gives
				f.Path = ``
				f.Nth = 1 + g.Intn(12)
			}
			s.Faults = append(s.Faults, f)
		}
	}
	if o.funcs && g.P(0.5) {
		s.Faults = append(s.Faults, &world.Fault{Op: `fn`, Path: g.Pick(`fkey`, `fhash`, `fdig`), Nth: 1 + g.Intn(5), Kind: g.Pick(`error`, `error`, `string`, `value`)})
	}
	return s
}

// step is what an operation adds to the explanation of its invocation.
func step(prev, text string) (string, bool) {
	if !strings.HasPrefix(text, prev) {
		return ``, false
	}
	return text[len(prev):], true
}

func runC12(r *Run) {
	s := r.Spec
	type id struct{ c, n int }
	got := map[id]*Done{}
	okBefore := map[id]bool{} // an operation of the same invocation succeeded before this one
	failed := 0
	after := 0
	r.Main(func(x *Exec) {
		x.Install(true)
		e := &ended{x: x}
		if !x.Drive(func(d *Done) { e.ds = append(e.ds, d); got[id{d.Client, d.N}] = d }) {
			x.Fail(`stall`, `lookups do not end: %s`, x.S.Blocked())
			return
		}
		texts := map[id]string{}
		for c, ops := range s.Clients {
			for n := range ops {
				d := got[id{c, n}]
				if d == nil {
					x.Fail(`stall`, `a lookup was not made`)
					return
				}
				if d.Out.Status == `error` {
					failed++
				} else if failed > 0 {
					after++
				}
				if d.Out.Status == `crash` || d.Out.Status == `noanswer` {
					x.Fail(`crash`, `%s gives %s`, d.Op.id(), d.Out)
					return
				}
				if s.Kind != `lib` || d.Op.Explain == `` {
					continue
				}
				k := id{c, d.Op.Inv}
				add, ok := step(texts[k], d.Text)
				if !ok {
					x.Fail(`nesting`, "the explanation of lookup %d of client %d changes what was explained before:\n%s\n--\n%s", n, c, texts[k], d.Text)
					return
				}
				if t := strings.TrimPrefix(add, "\n"); strings.HasPrefix(t, ` `) {
					x.Fail(`nesting`, "the explanation of lookup %d of client %d (%s) is nested in that of an earlier one:\n%s", n, c, d.Op.Key, d.Text)
					return
				}
				texts[k] = d.Text
			}
		}
		cause := func(d *Done) bool {
			if x.fired(d.From, d.To) {
				return true
			}
			for _, p := range x.Plug {
				for _, c := range p.Calls {
					if c.Did != `` && c.At >= d.Started && c.At <= d.Ended {
						return true
					}
				}
			}
			return false
		}
		exc := e.excused(cause)
		for _, d := range e.ds {
			if d.Out.Status == `error` && exc[d] {
				d.Started = -1 // excused
			}
		}
	})
	if r.Stop() {
		return
	}
	// the same without those that failed because of a fault, and without faults
	two := s.Clone()
	two.Faults, two.Events = nil, nil
	for _, p := range sortedKeys(two.U.Plugins) {
		two.U.Plugins[p].Starts = nil
	}
	var back []id
	var rest [][]*Op
	for c, ops := range two.Clients {
		var ls []*Op
		seen := map[int]bool{}
		for n, o := range ops {
			k := id{c, n}
			if got[k].Out.Status == `error` && (got[k].Started < 0 || n%2 == 0) {
				continue
			}
			okBefore[k] = seen[o.Inv]
			ls = append(ls, o)
			back = append(back, k)
			if got[k].Out.Status == `found` && !strings.HasPrefix(o.Key, `lookup_options`) {
				seen[o.Inv] = true
			}
		}
		if ls != nil {
			rest = append(rest, ls)
		}
	}
	two.Clients = rest
	if len(rest) == 0 {
		return
	}
	want := map[id]*Done{}
	r.Sub(func(x *Exec) {
		x.Spec = two
		x.Install(false)
		var ds []*Done
		x.Drive(func(d *Done) { ds = append(ds, d) })
		i := 0
		for c := range two.Clients {
			for n := range two.Clients[c] {
				for _, d := range ds {
					if d.Client == c && d.N == n {
						want[back[i]] = d
					}
				}
				i++
			}
		}
	})
	if r.Stop() {
		return
	}
	for _, k := range back {
		g, w := got[k], want[k]
		if w == nil {
			r.Fail(`stall`, `a lookup was not made`)
			return
		}
		if !g.Out.Same(w.Out) {
			r.Fail(`history`, `lookup %d of client %d, %s, gives %s, but %s when the lookups that failed are not made`, k.n, k.c, g.Op.id(), g.Out, w.Out)
			return
		}
	}
	// a failure that is not the work of a fault happens without the others, too
	for c, ops := range s.Clients {
		for n, o := range ops {
			d := got[id{c, n}]
			if d.Out.Status != `error` || d.Started < 0 || want[id{c, n}] != nil {
				continue
			}
			one := two.Clone()
			one.Clients = [][]*Op{{o}}
			var out *Done
			r.Sub(func(x *Exec) { x.Spec = one; x.Install(false); x.Drive(func(d *Done) { out = d }) })
			if r.Stop() {
				return
			}
			if out == nil || out.Out.Status != `error` {
				r.Fail(`history`, `lookup %d of client %d, %s, gives %s, but alone it does not fail`, n, c, o.id(), d.Out)
				return
			}
		}
	}
	// the explanation of a lookup is that of the same lookup in a history without failures
	if s.Kind == `lib` {
		for c := range s.Clients {
			pg, pw := map[int]string{}, map[int]string{}
			for n, o := range s.Clients[c] {
				k := id{c, n}
				g, w := got[k], want[k]
				if o.Explain == `` {
					continue
				}
				if w != nil && okBefore[k] && g.Out.Status != `error` && !strings.Contains(o.Key, `::`) {
					a, _ := step(pg[o.Inv], g.Text)
					b, _ := step(pw[o.Inv], w.Text)
					if a != b && !strings.Contains(a+b, `::`) {
						r.Fail(`nesting`, "the explanation of lookup %d of client %d depends on a lookup that failed before:\n%s\n--\n%s", n, c, a, b)
						return
					}
				}
				pg[o.Inv] = g.Text
				if w != nil {
					pw[o.Inv] = w.Text
				}
			}
		}
	}
	r.A.Nontriv = failed > 0 && after > 0
}
