//go:build go1.22

package zzsim

import (
	"path"
	"strings"

	"simkit/world"
)

func init() {
	scenarios[`C02`] = &Scenario{Gen: genC02, Run: runC02,
		Rule: `a case is a hierarchy of 1-4 entries (paths, globs, mapped paths, JSON, session functions) with data, lookup options and interpolations, broken sources in some, 1-3 concurrent clients with 1-2 lookups each through REST, library or command line, and 0-2 I/O faults; non-trivial when a source is broken, a fault fired, or several clients overlap`}
	scenarios[`C15`] = &Scenario{Gen: genC15, Run: runC15,
		Rule: `a case is a hierarchy with globs and module directories of several files each, looked up with and without an explanation while every directory enumeration is permuted by the simulator; non-trivial when an enumeration was really permuted`}
	scenarios[`C18`] = &Scenario{Gen: genC18, Run: runC18,
		Rule: `a case is a hierarchy with lookups made plainly and with each kind of explanation, concurrently and under persistent faults; non-trivial when an explained lookup ran`}
}

// libOp turns a lookup into one for the library.
func (g *Gen) libOp() *Op {
	o := g.Lookup()
	o.Type = ``
	if o.Merge == `` && g.P(0.1) {
		o.Merge = `first`
	}
	if g.P(0.5) {
		var rs []interface{}
		for k := g.Intn(3); k > 0; k-- {
			rs = append(rs, g.Pick(scopeVars[`role`]...))
		}
		o.Scope = map[string]interface{}{`roles`: append(rs, g.Pick(scopeVars[`role`]...))}
		if g.P(0.2) {
			o.Scope[`roles`] = g.Pick(scopeVars[`role`]...)
		}
	}
	return o
}

func (g *Gen) op(kind string) *Op {
	if kind == `lib` {
		return g.libOp()
	}
	o := g.Lookup()
	if kind == `cli` {
		if o.Type != `` {
			o.Type = ``
		}
		if strings.HasPrefix(o.Key, `lookup_options`) {
			o.Key = `s0`
		}
	}
	return o
}

func genC02(g *Gen) *Spec {
	s := &Spec{Kind: g.Pick(`rest`, `lib`, `lib`, `cli`), Policy: g.Policy(), MaxSteps: 6000000}
	s.U = g.Universe(uopt{interp: true, options: true, mapped: true, broken: g.P(0.6), funcs: s.Kind == `lib`, pcore: s.Kind == `cli`, more: g.P(0.6)})
	if s.Kind == `lib` {
		s.Top = g.Pick(``, ``, `mux`)
	}
	if g.P(0.04) {
		s.U.Raw = g.Pick("version: 5\nhierarchy: nope\n", "version: 4\n", "{", "- a\n")
	}
	s.Env = map[string]string{`HOME`: `/root`, `OPTS`: g.Pick(`-a=b -c=%{x}`, `=`, ``, `x==y`)}
	n := 1 + g.Intn(3)
	if s.Kind == `cli` {
		n = 1
	}
	for i := 0; i < n; i++ {
		var ops []*Op
		for k := 1 + g.Intn(2); k > 0; k-- {
			ops = append(ops, g.op(s.Kind))
		}
		s.Clients = append(s.Clients, ops)
	}
	if g.P(0.6) {
		g.More(s)
	}
	g.where(s)
	g.whichConfig(s)
	if s.Kind == `lib` && g.P(0.4) {
		g.SessionScope(s)
	}
	if s.Kind == `lib` && s.Top != `` && g.P(0.25) {
		g.noConfig(s)
	}
	if g.P(0.6) {
		s.Faults = g.IOFaults(s.U, 1+g.Intn(2))
	}
	return s
}

// SessionScope gives the session a scope of its own, that invocations extend and override.
func (g *Gen) SessionScope(s *Spec) {
	s.Scope = map[string]interface{}{}
	for _, v := range []string{`env`, `role`, `x`, `y`, `roles`} {
		if !g.P(0.5) {
			continue
		}
		if vs := scopeVars[v]; len(vs) > 0 {
			s.Scope[v] = g.Pick(vs...)
		}
		if v == `roles` {
			s.Scope[v] = []interface{}{`db`, `web`}
		}
	}
	s.Scope[`m`] = map[string]interface{}{`k`: g.Tag(`sm`), `n`: map[string]interface{}{`k`: g.Tag(`sm`)}}
}

// noConfig makes it a session that needs no configuration: it takes the values from one file, and from the scope.
func (g *Gen) noConfig(s *Spec) {
	ps := append(sortedKeys(s.U.files()), `/hiera/data/none.yaml`)
	p := ps[g.Intn(len(ps))]
	if !strings.HasSuffix(p, `.yaml`) {
		return
	}
	s.Top = g.Pick(`yaml`, `mux-yaml`, `mux-yaml`)
	if s.S == nil {
		s.S = map[string]string{}
	}
	s.S[`yamlpath`] = p
}

// whichConfig lets the environment, the current directory or the session's options tell where the configuration is.
func (g *Gen) whichConfig(s *Spec) {
	if g.P(0.3) {
		s.S = map[string]string{`cwd`: g.Pick(`/work`, `/`, `/hiera/data`)}
		return
	}
	if g.P(0.7) {
		return
	}
	s.S = map[string]string{}
	by := g.Pick(`cwd`, `env`, `env`, `over`, `rel`)
	switch s.Kind {
	case `lib`:
		by = g.Pick(`cwd`, `env`, `env`, `over`, `root`, `name`)
	case `rest`:
		by = g.Pick(`cwd`, `over`, `rel`) // the server has a default of its own
	}
	if by == `env` || by == `over` || by == `rel` || by == `name` {
		s.U.ConfigPath = g.Pick(`/hiera/other.yaml`, `/hiera/hiera.yaml`)
	}
	base := path.Base(s.U.config())
	if (by == `env` || by == `name` || by == `rel`) && g.P(0.3) {
		s.S[`cwd`], base = `/`, `hiera/`+base
	}
	s.S[`configby`] = by
	switch by {
	case `env`:
		s.Env[`HIERA_CONFIGFILE`] = g.Pick(base, base, `./`+base, path.Join(`../hiera`, path.Base(base)), s.U.config())
	case `over`:
		// what the caller says counts more than the environment
		s.Env[`HIERA_CONFIGFILE`] = g.Pick(`none.yaml`, ``, `/none/none.yaml`)
		delete(s.S, `configby`)
	case `rel`:
		s.S[`configby`] = g.Pick(base, `./`+base)
	case `name`:
		s.S[`configby`] = base
	}
}

// where sometimes moves the data to where the environment says, or takes the configuration away.
func (g *Gen) where(s *Spec) {
	switch g.Intn(20) {
	case 0:
		if s.U.Defaults == nil || s.U.Defaults.DataDir == `` {
			s.U.DD = g.Pick(`env-data`, `/abs/env`)
			s.Env[`HIERA_DATADIR`] = s.U.DD
		}
	case 1:
		if s.U.Raw == `` {
			s.U.NoConfig, s.U.Entries, s.U.Defaults, s.U.DD = true, nil, nil, ``
			for _, p := range []string{`/hiera/data.yaml`, `common.yaml`} {
				if g.P(0.8) {
					s.U.Files[p] = g.File(p, uopt{interp: true, options: true, pcore: s.Kind == `cli`})
				}
			}
		}
	}
}

// alone makes every operation of the spec by itself, in a fresh world without faults, and compares with the model.
func alone(r *Run, arm bool) map[string]Outcome {
	exp := map[string]Outcome{}
	for _, c := range r.Spec.Clients {
		for _, o := range c {
			if _, ok := exp[o.id()]; ok || r.Stop() {
				continue
			}
			one := *r.Spec
			one.Clients = [][]*Op{{o}}
			one.Events = nil
			r.Sub(func(x *Exec) {
				x.Spec = &one
				x.Install(false)
				if arm {
					x.ArmFaults()
				}
				x.Drive(func(d *Done) { exp[o.id()] = d.Out })
			})
			if r.Stop() || arm {
				continue
			}
			w := modelOf(r.Spec).op(r.Spec, o)
			r.A.Stats[`probe:model `+w.Status]++
			if w.Status == `unknown` {
				r.A.Stats[`probe:unknown `+w.Err]++
			}
			if w.Status != `unknown` && !w.Same(exp[o.id()]) {
				r.Fail(`wrong`, `%s of %s alone gives %s, but the hierarchy defines %s`, r.Spec.Kind, o.id(), exp[o.id()], w)
			}
		}
	}
	return exp
}

func runC02(r *Run) {
	exp := alone(r, false)
	if r.Stop() {
		return
	}
	fired := 0
	r.Main(func(x *Exec) {
		x.Install(true)
		ok := x.Drive(func(d *Done) {
			e := exp[d.Op.id()]
			if d.Out.Status == `error` {
				if e.Status != `error` && !x.fired(d.From, d.To) {
					x.Fail(`spurious`, `%s gives %s, but %s alone`, d.Op.id(), d.Out, e)
				}
				return
			}
			if !d.Out.Same(e) {
				x.Fail(`swallowed`, `%s gives %s instead of %s or an error`, d.Op.id(), d.Out, e)
				return
			}
			m := modelOf(r.Spec)
			if w := m.op(r.Spec, d.Op); w.Status == `unknown` {
				return
			}
			for _, f := range r.Spec.Faults {
				if f.Nth == 0 && hard(f) && m.deps[f.Path] && (f.Op == `open` || f.Off < r.Spec.U.size(f.Path)) {
					x.Fail(`swallowed`, `%s gives %s although the source %s that it needs cannot be read`, d.Op.id(), d.Out, f.Path)
				}
			}
		})
		if !ok {
			x.Fail(`stall`, `lookups do not end: %s`, x.S.Blocked())
		}
		for _, f := range x.W.Faults {
			fired += f.Fired()
		}
	})
	broken := r.Spec.U.Raw != ``
	for _, f := range r.Spec.U.Files {
		broken = broken || f.Raw != `` || f.Dir || f.Blank
	}
	r.A.Nontriv = fired > 0 || broken || len(r.Spec.Clients) > 1
}

// hard tells if a fault makes the content of a file unavailable.
func hard(f *world.Fault) bool {
	return (f.Op == `open` || f.Op == `read`) && f.Kind != `short` && f.Kind != `slow`
}

func genC15(g *Gen) *Spec {
	s := &Spec{Kind: `lib`, Top: g.Pick(``, `mux`, `mux-module`, `mux-module`), Policy: g.Policy(), MaxSteps: 6000000}
	o := uopt{interp: true, options: true, mapped: true}
	s.U = g.Universe(o)
	gl := func(pre string, n int) *Entry {
		e := &Entry{Name: `glob` + itoa(n), Glob: pre + g.Pick(`q`+itoa(n)+`/*.yaml`, `q`+itoa(n)+`/**/*.yaml`, `q`+itoa(n)+`/{a,b,c,d}*.yaml`)}
		return e
	}
	names := []string{`a`, `b`, `c`, `d`, `a1`, `sub/a`, `sub/b`, `Z`}
	for n := 1 + g.Intn(2); n > 0; n-- {
		s.U.Entries = append(s.U.Entries, gl(``, n))
		for _, f := range names {
			if g.P(0.5) {
				s.U.Files[`q`+itoa(n)+`/`+f+`.yaml`] = g.File(``, o)
			}
		}
	}
	if g.P(0.3) {
		s.U.Entries[0], s.U.Entries[len(s.U.Entries)-1] = s.U.Entries[len(s.U.Entries)-1], s.U.Entries[0]
	}
	if s.Top == `mux-module` {
		g.modules(s, true)
	}
	for k := 1 + g.Intn(3); k > 0; k-- {
		op := g.libOp()
		if s.Top == `mux-module` && g.P(0.7) {
			op.Key = g.modKey()
		}
		op.Explain = g.Pick(``, `data`, `both`)
		s.Clients = append(s.Clients, []*Op{op})
	}
	return s
}

func runC15(r *Run) {
	exp := map[int]*Done{}
	r.Sub(func(x *Exec) { x.Install(false); x.Drive(func(d *Done) { exp[d.Client] = d }) })
	if r.Stop() {
		return
	}
	permuted := 0
	r.Main(func(x *Exec) {
		x.Install(true)
		ok := x.Drive(func(d *Done) {
			e := exp[d.Client]
			if !d.Out.Same(e.Out) || d.Out.Err != e.Out.Err {
				x.Fail(`order`, `%s gives %s, but %s when directories are enumerated in another order`, d.Op.id(), d.Out, e.Out)
			} else if d.Text != e.Text {
				x.Fail(`order`, "the explanation of %s depends on the order in which directories are enumerated:\n%s\n--\n%s", d.Op.id(), d.Text, e.Text)
			}
		})
		if !ok {
			x.Fail(`stall`, `lookups do not end: %s`, x.S.Blocked())
		}
		permuted = x.W.Stats[`readdir:permuted`]
	})
	r.A.Nontriv = permuted > 0
}

func genC18(g *Gen) *Spec {
	s := &Spec{Kind: g.Pick(`lib`, `lib`, `lib`, `cli`), Policy: g.Policy(), MaxSteps: 6000000}
	s.U = g.Universe(uopt{interp: true, options: true, mapped: true, broken: g.P(0.4), funcs: s.Kind == `lib`, pcore: s.Kind == `cli`, more: g.P(0.5)})
	if s.Kind == `lib` {
		s.Top = g.Pick(``, ``, `mux`)
	}
	s.Env = map[string]string{`HOME`: `/root`, `OPTS`: g.Pick(`-a=b -c=%{x}`, `=`, ``, `x==y`)}
	n := 1 + g.Intn(2)
	if s.Kind == `cli` {
		n = 1
	}
	for i := 0; i < n; i++ {
		o := g.op(s.Kind)
		var ops []*Op
		for _, e := range []string{``, `data`, `options`, `both`} {
			if e != `` && g.P(0.3) {
				continue
			}
			c := *o
			c.Explain = e
			ops = append(ops, &c)
		}
		g.shuffle(len(ops), func(a, b int) { ops[a], ops[b] = ops[b], ops[a] })
		if s.Kind == `cli` {
			s.Clients = append(s.Clients, ops)
			continue
		}
		for _, o := range ops {
			s.Clients = append(s.Clients, []*Op{o})
		}
	}
	if g.P(0.3) {
		for _, f := range g.IOFaults(s.U, 1) {
			f.Nth = 0
			s.Faults = append(s.Faults, f)
		}
	}
	return s
}

func (g *Gen) shuffle(n int, swap func(a, b int)) {
	for i := n - 1; i > 0; i-- {
		if j := g.Intn(i + 1); j != i {
			swap(i, j)
		}
	}
}

func runC18(r *Run) {
	plain := map[string]Outcome{}
	pid := func(o *Op) string { c := *o; c.Explain = ``; return c.id() }
	one := r.Spec.Clone()
	for _, c := range one.Clients {
		for _, o := range c {
			o.Explain = ``
		}
	}
	for _, c := range one.Clients {
		for _, o := range c {
			if _, ok := plain[pid(o)]; ok || r.Stop() {
				continue
			}
			sp := *one
			sp.Clients = [][]*Op{{o}}
			r.Sub(func(x *Exec) {
				x.Spec = &sp
				x.Install(false)
				x.ArmFaults()
				x.Drive(func(d *Done) { plain[pid(o)] = d.Out })
			})
		}
	}
	if r.Stop() {
		return
	}
	explained := 0
	r.Main(func(x *Exec) {
		x.Install(true)
		ok := x.Drive(func(d *Done) {
			p := plain[pid(d.Op)]
			if d.Op.Explain != `` {
				explained++
			}
			if d.Out.Status == `explained` {
				if p.Status == `error` {
					x.Fail(`explain`, `%s with an explanation succeeds, but without gives %s`, d.Op.id(), p)
				}
			} else if !d.Out.Same(p) || d.Out.Err != p.Err {
				x.Fail(`explain`, `%s gives %s, but without an explanation %s`, d.Op.id(), d.Out, p)
			}
			if p.Status == `found` && (d.Op.Explain == `data` || d.Op.Explain == `both`) && d.Out.Status != `error` {
				text := d.Out.text
				if text == `` && !strings.ContainsAny(p.Val, `{\`) && !strings.Contains(p.Val, `null`) {
					text = p.Val
				}
				if strings.HasPrefix(p.Val, `[`) && strings.Contains(d.Text, `Using merge options`) {
					text = `` // perhaps a unique merge
				}
				if text != `` && !strings.HasPrefix(d.Op.Key, `env`) && !strings.HasPrefix(d.Op.Key, `i`) && !usesDefault(d.Op, p) &&
					d.Op.Merge != `unique` && !strings.Contains(d.Text, `unique`) &&
					!shows(d.Text, text) {
					x.Fail(`explain`, "the explanation of %s does not show the found value %s:\n%s", d.Op.id(), text, d.Text)
				}
				if !namesValue(d.Text, p.Val) && !usesDefault(d.Op, p) {
					x.Fail(`explain`, "the explanation of %s does not name the found value %s:\n%s", d.Op.id(), p.Val, d.Text)
				}
			}
		})
		if !ok {
			x.Fail(`stall`, `lookups do not end: %s`, x.S.Blocked())
		}
	})
	r.A.Nontriv = explained > 0
}

func usesDefault(o *Op, p Outcome) bool {
	return o.Default != nil && (p.Val == canon(*o.Default) || p.Val == canon(strings.TrimSpace(*o.Default)))
}

// namesValue tells if all scalars of a value occur in a text.
func namesValue(text, val string) bool {
	for _, t := range tagRe.FindAllString(val, -1) {
		if !strings.Contains(text, t) {
			return false
		}
	}
	return true
}

// shows tells if a text of an explanation shows a value as what its last search found. What is put around a value by a
// conversion or a merge isn't shown, so quotes and braces are not compared.
func shows(text, v string) bool {
	compact := func(s string) string {
		return strings.NewReplacer(`"`, ``, `{`, ``, `}`, ``, `[`, ``, `]`, ``).Replace(strings.Join(strings.Fields(s), ``))
	}
	i := strings.LastIndex("\n"+text, "\nSearching for \"")
	if i < 0 {
		return false
	}
	t := compact(text[i:])
	return strings.Contains(t, `Mergedresult:`+compact(v)) || strings.Contains(t, `value:`+compact(v))
}
