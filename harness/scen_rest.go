//go:build go1.22

package zzsim

import "simkit/world"

func init() {
	scenarios[`C01`] = &Scenario{Gen: genC01, Run: runC01,
		Rule: `a case is a hierarchy (some with session functions, modules or broken sources) with 2-6 concurrent clients of one server or library session, 1-3 lookups each, many of the same keys under other variables, defaults, types and merge strategies, some that fail, while file operations are slow at times; non-trivial when lookups of two clients overlapped`}
}

func genC01(g *Gen) *Spec {
	s := &Spec{Kind: g.Pick(`rest`, `rest`, `lib`), Policy: g.Policy(), MaxSteps: 6000000}
	s.U = g.Universe(uopt{interp: true, options: true, mapped: true, broken: g.P(0.2), funcs: s.Kind == `lib`, more: g.P(0.4)})
	if s.Kind == `lib` {
		s.Top = g.Pick(``, `mux`, `mux-module`)
	}
	if s.Top == `mux-module` {
		g.modules(s, false)
	}
	if s.Kind == `rest` {
		for i := g.Intn(6); i > 0; i-- {
			s.Args = append(s.Args, `--var`, g.Pick(`env`, `role`, `sv`+itoa(i))+`=`+g.Pick(`dev`, `web`, g.Tag(`sv`)))
		}
	}
	s.Env = map[string]string{`HOME`: `/root`}
	if g.P(0.3) {
		// keys that a reference leads to from many others
		f := g.File(``, uopt{interp: true, options: true})
		for i := 0; i < nS; i++ {
			f.Data[`s`+itoa(i)] = g.Tag(`v`) + ` %{env}%{x}%{y} %{lookup('` + g.Pick(`i0`, `i1`, `deepref`) + `')}`
		}
		f.Data[`deepref`] = g.Tag(`v`) + ` %{role}/%{y}`
		s.U.Files[`refs.yaml`] = f
		s.U.Entries = append(s.U.Entries, &Entry{Name: `refs`, Path: `refs.yaml`})
	}
	n := 2 + g.Intn(5)
	for i := 0; i < n; i++ {
		var ops []*Op
		for k := 1 + g.Intn(3); k > 0; k-- {
			o := g.op(s.Kind)
			switch {
			case g.P(0.3) && len(s.Clients) > 0:
				// the same key under other circumstances
				o.Key = s.Clients[0][0].Key
			case s.Top == `mux-module` && g.P(0.5):
				o.Key = g.modKey()
			case g.P(0.06):
				o.Key = g.Pick(`x..y`, `0.a`, `bad.'x`)
			}
			if g.P(0.04) {
				o.Merge = g.Pick(`nosuch`, `Deep`)
			}
			if g.P(0.04) && s.Kind == `rest` {
				if g.P(0.5) {
					o.Vars = append(o.Vars, g.Pick(`novalue`, `=x`, `a==b`))
				} else {
					o.Type = g.Pick(`nosuch[`, `map[string]int`)
				}
			}
			if g.P(0.2) {
				o.DelayMs = g.Intn(4)
			}
			ops = append(ops, o)
		}
		s.Clients = append(s.Clients, ops)
	}
	for k := g.Intn(3); k > 0; k-- {
		s.Faults = append(s.Faults, &world.Fault{Op: g.Pick(`open`, `read`, `stat`, `readdir`), Nth: []int{0, 1 + g.Intn(20)}[g.Intn(2)], Kind: `slow`, Ms: 1 + g.Intn(4)})
	}
	return s
}

func srvArgs(s *Spec) []string { return append(s.configArgs(), s.Args...) }

// configArgs tells the command line where the configuration is, unless something else does.
func (s *Spec) configArgs() []string {
	switch p := s.S[`configby`]; p {
	case ``:
		return []string{`--config`, s.U.config()}
	case `cwd`, `env`:
		return nil
	default:
		return []string{`--config`, p}
	}
}

func srvVars(s *Spec) (vs []string) {
	for i := 0; i+1 < len(s.Args); i++ {
		if s.Args[i] == `--var` {
			vs = append(vs, s.Args[i+1])
			i++
		}
	}
	return
}

func runC01(r *Run) {
	s := r.Spec
	strip := s.Clone()
	for _, ops := range strip.Clients {
		for _, o := range ops {
			o.DelayMs = 0
		}
	}
	id := func(o *Op) string { c := *o; c.DelayMs = 0; return c.id() }
	r.Spec = strip
	exp := alone(r, false)
	r.Spec = s
	if r.Stop() {
		return
	}
	overlap := false
	r.Main(func(x *Exec) {
		x.Install(true)
		var ds []*Done
		ok := x.Drive(func(d *Done) {
			for _, o := range ds {
				overlap = overlap || o.Client != d.Client && o.From < d.To && d.From < o.To
			}
			ds = append(ds, d)
			if e := exp[id(d.Op)]; !d.Out.Same(e) || d.Out.Err != e.Err {
				x.Fail(`interference`, `%s gives %s, but %s alone`, d.Op.id(), d.Out, e)
			}
		})
		if !ok {
			x.Fail(`stall`, `lookups do not end: %s`, x.S.Blocked())
		}
	})
	r.A.Nontriv = overlap
}
