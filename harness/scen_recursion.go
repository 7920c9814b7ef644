//go:build go1.22

package zzsim

import (
	"strings"

	"simkit/world"
)

func init() {
	scenarios[`C19`] = &Scenario{Gen: genC19, Run: runC19,
		Rule: `a case is a graph of references between keys (lookup, hiera, alias and dotted references in strings, arrays, hashes and hash keys, scope variables, session functions, lookup options, modules), with or without cycles, as a chain of up to 150 keys or any graph of 2-8, looked up through 1-4 concurrent clients, often the same key at once, with and without explanations and merges, at times with slow files; non-trivial when a reference was followed`}
}

func (g *Gen) ref(ks []string, self int, cyclic float64) string {
	j := -1
	switch {
	case g.P(cyclic):
		j = g.Intn(len(ks))
	case self+1 < len(ks):
		j = self + 1 + g.Intn(len(ks)-self-1)
	}
	if j < 0 {
		return g.Tag(`v`)
	}
	k := ks[j]
	if g.P(0.15) {
		k += g.Pick(`.p`, `.q`, `.0`, `.p.q`)
	}
	switch g.Intn(6) {
	case 0:
		return `%{alias('` + k + `')}`
	case 1:
		return g.Tag(`v`) + ` %{hiera('` + k + `')}`
	case 2:
		return `%{lookup("` + k + `")}`
	}
	return g.Tag(`v`) + ` %{lookup('` + k + `')}`
}

func (g *Gen) refValue(ks []string, self int, cyclic float64, depth int) interface{} {
	switch g.Intn(10) {
	case 0:
		if depth > 0 {
			return []interface{}{g.refValue(ks, self, cyclic, depth-1), g.Tag(`e`)}
		}
	case 1, 2:
		if depth > 0 {
			m := map[string]interface{}{`p`: g.refValue(ks, self, cyclic, depth-1)}
			if g.P(0.5) {
				m[`q`] = g.Tag(`v`)
			}
			if g.P(0.1) {
				m[`%{v0}`] = g.Tag(`v`)
			}
			return m
		}
	case 3:
		return g.Tag(`v`) + ` %{` + g.Pick(`v0`, `v1`, `v2`, `v2.p`) + `}`
	case 4:
		return g.Tag(`v`)
	case 5:
		return g.ref(ks, self, cyclic) + g.Tag(` v`)
	}
	return g.ref(ks, self, cyclic)
}

func genC19(g *Gen) *Spec {
	s := &Spec{Kind: g.Pick(`lib`, `lib`, `rest`), Policy: g.Policy(), MaxSteps: 4000000, N: map[string]int{`cyc`: 1}, S: map[string]string{}}
	s.U = &Universe{Files: map[string]*DataFile{}}
	var ks []string
	n := 2 + g.Intn(7)
	chain := g.P(0.08)
	if chain {
		n = 20 + g.Intn(131)
	}
	if s.Kind == `lib` {
		s.Top = g.Pick(``, `mux`, `mux-module`)
	}
	for i := 0; i < n; i++ {
		p := ``
		if s.Top == `mux-module` && g.P(0.5) {
			p = g.Pick(`alpha::`, `beta::`)
		}
		ks = append(ks, p+`k`+itoa(i))
	}
	cyclic := []float64{0, 0.1, 0.3}[g.Intn(3)]
	put := func(file, k string, v interface{}) {
		if i := strings.Index(k, `::`); i > 0 {
			d := `/mods/` + k[:i]
			m := s.U.Modules[d]
			if m == nil {
				if s.U.Modules == nil {
					s.U.Modules = map[string]*Module{}
				}
				m = &Module{Dir: d, Entries: []*Entry{{Name: `a`, Path: `a.yaml`}, {Name: `b`, Path: `b.yaml`}}, Files: map[string]*DataFile{}}
				s.U.Modules[d] = m
			}
			if m.Files[file] == nil {
				m.Files[file] = &DataFile{Data: map[string]interface{}{}}
			}
			m.Files[file].Data[k] = v
			return
		}
		if s.U.Files[file] == nil {
			s.U.Files[file] = &DataFile{Data: map[string]interface{}{}}
		}
		s.U.Files[file].Data[k] = v
	}
	s.U.Entries = []*Entry{{Name: `a`, Path: `a.yaml`}, {Name: `b`, Path: `b.yaml`}}
	if s.Top == `mux-module` {
		s.S[`modulepath`] = `/mods`
		put(`a.yaml`, `alpha::zz`, `x`)
	}
	if chain {
		for i := 0; i+1 < n; i++ {
			put(g.Pick(`a.yaml`, `b.yaml`), ks[i], `%{lookup('`+ks[i+1]+`')}`)
		}
		last := interface{}(g.Tag(`v`))
		if g.P(0.4) {
			last = `%{lookup('` + ks[g.Intn(n)] + `')}`
		}
		put(`a.yaml`, ks[n-1], last)
	} else {
		for i, k := range ks {
			put(`a.yaml`, k, g.refValue(ks, i, cyclic, 2))
			if g.P(0.25) {
				put(`b.yaml`, k, g.refValue(ks, i, cyclic, 1))
			}
		}
		if g.P(0.2) {
			opt := map[string]interface{}{}
			for i, k := range ks {
				if g.P(0.3) {
					opt[k] = map[string]interface{}{`merge`: g.Pick(`unique`, `deep`, `hash`)}
					if g.P(0.2) {
						opt[k] = map[string]interface{}{`merge`: g.Pick(`deep`, `hash`), `note`: g.ref(ks, i, cyclic)}
					}
				}
			}
			put(`b.yaml`, `lookup_options`, opt)
		}
	}
	if s.Kind == `lib` && !chain && g.P(0.3) {
		refs := map[string]interface{}{}
		for i, k := range ks {
			if g.P(0.4) && (i+1 < len(ks) || cyclic > 0) {
				j := g.Intn(len(ks))
				if !g.P(cyclic) {
					if i+1 >= len(ks) {
						continue
					}
					j = i + 1 + g.Intn(len(ks)-i-1)
				}
				refs[k] = ks[j]
			}
		}
		e := &Entry{Name: `refs`, Kind: `lookup_key`, Fn: `fref`, Options: map[string]interface{}{`refs`: refs}}
		if g.P(0.5) {
			s.U.Entries = append([]*Entry{e}, s.U.Entries...)
		} else {
			s.U.Entries = append(s.U.Entries, e)
		}
	}
	scope := map[string]interface{}{}
	vars := []string{`v0`, `v1`, `v2`}
	for i, v := range vars {
		t := g.Tag(`v`)
		switch {
		case g.P(0.2):
			t = `x%{` + vars[(i+1)%3] + `}`
			if i == 2 && !g.P(cyclic) {
				t = g.Tag(`v`)
			}
		case g.P(0.25):
			t = g.ref(ks, len(ks)-2, cyclic)
		case g.P(0.05):
			t = `%{` + v + `}`
		case g.P(0.1):
			continue
		}
		scope[v] = t
	}
	if g.P(0.08) && !chain {
		s.U.Entries = append(s.U.Entries, &Entry{Name: `byvar`, Path: `x/%{v0}.yaml`})
	}
	op := func() *Op {
		i := g.Intn(n)
		if g.P(0.4) || chain {
			i = 0
		}
		o := &Op{Do: `lookup`, Key: ks[i]}
		if g.P(0.15) {
			o.Key += g.Pick(`.p`, `.q`, `.0`)
		}
		if g.P(0.25) {
			o.Merge = g.Pick(`unique`, `deep`, `hash`)
		}
		if g.P(0.2) {
			d := g.Tag(`dflt`)
			o.Default = &d
		}
		if s.Kind == `rest` {
			for _, v := range sortedKeys(scope) {
				o.Vars = append(o.Vars, v+`=`+scope[v].(string))
			}
		} else {
			o.Scope = scope
			o.Explain = g.Pick(``, ``, ``, `data`, `both`, `options`)
			if chain {
				o.Explain = ``
			}
		}
		return o
	}
	for c := 1 + g.Intn(4); c > 0; c-- {
		var ops []*Op
		for k := 1 + g.Intn(3); k > 0; k-- {
			o := op()
			if m := modelOf(s); m.op(s, o).Status == `unknown` || m.steps > 1500 {
				// the model does not know, or the paths through the graph are too many
				continue
			}
			if s.Kind == `lib` {
				o.Inv = g.Intn(2)
				if o.Inv > 0 && len(ops) > 0 {
					o.Explain = ops[0].Explain
				}
			}
			ops = append(ops, o)
			if chain && n > 60 {
				break
			}
		}
		if ops != nil {
			s.Clients = append(s.Clients, ops)
		}
	}
	if g.P(0.3) {
		s.Faults = append(s.Faults, &world.Fault{Op: g.Pick(`open`, `read`), Nth: g.Intn(4), Kind: `slow`, Ms: 1 + g.Intn(3)})
	}
	return s
}

func runC19(r *Run) {
	s := r.Spec
	want := map[string]Outcome{}
	wid := func(o *Op) string { c := *o; c.Explain, c.Inv, c.DelayMs = ``, 0, 0; return c.id() }
	followed := false
	for _, ops := range s.Clients {
		for _, o := range ops {
			if _, ok := want[wid(o)]; !ok {
				m := modelOf(s)
				want[wid(o)] = m.op(s, o)
				followed = followed || m.steps > 0
			}
		}
	}
	r.Main(func(x *Exec) {
		x.Install(true)
		done := 0
		ok := x.Drive(func(d *Done) {
			done++
			w := want[wid(d.Op)]
			switch {
			case d.Out.Status == `crash` || d.Out.Status == `noanswer`:
				x.Fail(`crash`, `%s gives %s`, d.Op.id(), d.Out)
			case w.Status == `unknown`:
			case w.Status == `error` && d.Out.Status != `error`:
				x.Fail(`undetected`, `%s gives %s, but it refers to itself`, d.Op.id(), d.Out)
			case d.Out.Status == `error` && w.Status != `error` && strings.Contains(d.Out.Err, `recursive`):
				x.Fail(`rejected`, `%s gives %s, but it does not refer to itself: %s`, d.Op.id(), d.Out, w)
			case !d.Out.Same(w):
				x.Fail(`value`, `%s gives %s instead of %s`, d.Op.id(), d.Out, w)
			case w.Status == `error` && strings.Contains(w.Err, `recursive`) && !strings.Contains(d.Out.Err, `recursive`):
				x.Fail(`undetected`, `%s refers to itself, but its failure does not say so: %s`, d.Op.id(), d.Out)
			}
		})
		if !ok {
			x.Fail(`stall`, `lookups do not end: %s`, x.S.Blocked())
		}
	})
	r.A.Nontriv = followed
}
