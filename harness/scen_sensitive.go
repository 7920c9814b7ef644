//go:build go1.22

package zzsim

import (
	"regexp"
	"strings"
)

func init() {
	scenarios[`C23`] = &Scenario{Gen: genC23, Run: runC23,
		Rule: `a case is a hierarchy in which 1-3 keys, found or merged from several sources, are converted to a sensitive type, while other keys refer to them, with 1-3 concurrent clients whose lookups, many of them explained, share invocations and sometimes fail through I/O faults, bad data or panicking functions; non-trivial when a secret was looked up with an explanation`}
}

var secret = regexp.MustCompile(`sec~\d+`)

const redacted = `value redacted`

// sensitive makes some keys sensitive and adds others that refer to them.
func (g *Gen) sensitive(s *Spec, o uopt) (keys []string) {
	lo := map[string]interface{}{}
	for _, k := range []string{`s0`, `s1`, `a0`, `h0`, `sx`} {
		if k != `sx` && !g.P(0.3) {
			continue
		}
		keys = append(keys, k)
		t := g.Pick(`sensitive`, `sensitive`, `sensitive[any]`)
		if o.pcore {
			t = g.Pick(`Sensitive`, `Sensitive`, `Sensitive[Any]`)
		}
		if k[0] == 's' && g.P(0.3) {
			if t = `sensitive[string]`; o.pcore {
				t = `Sensitive[String]`
			}
		}
		m := map[string]interface{}{`convert_to`: t}
		if g.P(0.2) {
			m[`convert_to`] = []interface{}{t}
		}
		switch k[0] {
		case 'a':
			m[`merge`] = g.Pick(`first`, `unique`, `deep`)
		case 'h':
			m[`merge`] = g.Pick(`first`, `hash`, `deep`)
		}
		lo[k] = m
	}
	part := func() interface{} {
		v := g.Tag(`sec`)
		switch g.Intn(11) {
		case 4:
			// what they find is known only as a part of something sensitive
			v += `%{lookup('pt0')}`
		case 5:
			v = `%{alias('` + g.Pick(`pt0`, `pt1`, `pt1.l`, `pt2`) + `')}`
		case 6:
			v = `%{lookup('pt1.l.0')}` + v + `%{hiera('pt2')}`
		case 0:
			v += `%{lookup('s3')}`
		case 1:
			v += ` %{env}` + g.Tag(`sec`)
		case 2:
			v = `%{scope('env')}` + v
		case 3:
			v += `%{lookup('a1.0')}`
		}
		return v
	}
	for _, p := range sortedKeys(s.U.Files) {
		f := s.U.Files[p]
		if f.Data == nil || f.Raw != `` || f.Blank || f.Dir {
			continue
		}
		if g.P(0.5) {
			f.Data[`sx`] = true
		}
		for _, k := range keys {
			if _, ok := f.Data[k]; !ok {
				continue
			}
			switch k[0] {
			case 's':
				f.Data[k] = part()
			case 'a':
				a := []interface{}{part()}
				for g.P(0.5) {
					a = append(a, part(), map[string]interface{}{`x`: part()})
				}
				f.Data[k] = a
			case 'h':
				f.Data[k] = map[string]interface{}{`p`: part(), g.Pick(`q`, `r`): []interface{}{part()}, `n`: map[string]interface{}{g.Pick(`p`, `q`): part()}}
			}
		}
	}
	f := &DataFile{Data: map[string]interface{}{`lookup_options`: lo, `sx`: part()}}
	for i := 0; i < 4; i++ {
		k := g.Pick(keys...)
		switch g.Intn(4) {
		case 0:
			f.Data[`r`+itoa(i)] = `<%{lookup('` + k + `')}>`
		case 1:
			f.Data[`r`+itoa(i)] = `%{alias('` + k + `')}`
		case 2:
			f.Data[`r`+itoa(i)] = []interface{}{`%{alias('` + k + `')}`, g.Tag(`a`)}
		case 3:
			f.Data[`r`+itoa(i)] = map[string]interface{}{`k`: `%{alias('` + k + `')}`, `s`: `%{lookup('s2')}`}
		}
	}
	f.Data[`bad`] = `%{lookup('` + g.Pick(keys...) + `')}%{nosuch('x')}`
	f.Data[`sbad`] = g.Tag(`sec`) + `%{lookup('bad')}`
	f.Data[`open`] = g.Tag(`o`)
	f.Data[`pt0`] = g.Tag(`sec`)
	f.Data[`pt1`] = map[string]interface{}{`l`: []interface{}{g.Tag(`sec`), `%{lookup('pt0')}`}, `k`: g.Tag(`sec`)}
	f.Data[`pt2`] = g.Tag(`sec`) + `%{lookup('pt1.k')}`
	lo[`sbad`] = map[string]interface{}{`convert_to`: lo[`sx`].(map[string]interface{})[`convert_to`]}
	s.U.Files[`secrets.yaml`] = f
	i := g.Intn(len(s.U.Entries) + 1)
	s.U.Entries = append(s.U.Entries[:i:i], append([]*Entry{{Name: `secrets`, Path: `secrets.yaml`}}, s.U.Entries[i:]...)...)
	return
}

func genC23(g *Gen) *Spec {
	s := &Spec{Kind: g.Pick(`lib`, `lib`, `lib`, `cli`), Policy: g.Policy(), MaxSteps: 6000000}
	o := uopt{interp: true, options: true, mapped: true, funcs: s.Kind == `lib`, pcore: s.Kind == `cli`}
	if s.Kind == `lib` {
		s.Top = g.Pick(``, `mux`, `mux`)
	}
	// With the configuration as top provider, lookup options only apply to the outermost lookup: what nested lookups
	// find is not converted.
	direct := s.Kind == `lib` && s.Top == ``
	o.interp = !direct
	s.U = g.Universe(o)
	s.Env = map[string]string{`HOME`: `/root`}
	keys := g.sensitive(s, o)
	key := func() string {
		switch g.Intn(6) {
		case 0, 1:
			return g.Pick(keys...) + g.Pick(``, ``, ``, ``, `.0`, `.p`)
		case 2:
			if direct {
				return `sx`
			}
			return g.Pick(`r0`, `r1`, `r2`, `r3`, `r2.0`, `r3.k`)
		case 3:
			if direct {
				return g.Pick(`open`, `sbad`)
			}
			return g.Pick(`bad`, `sbad`, `open`, `open`)
		}
		return g.Key()
	}
	n := 1 + g.Intn(3)
	if s.Kind == `cli` {
		n = 1
	}
	for i := 0; i < n; i++ {
		var ops []*Op
		inv := 0
		first := g.op(s.Kind)
		ex := g.Pick(``, `data`, `data`, `both`)
		if g.P(0.5) {
			inv = 1
		}
		for k := 1 + g.Intn(4); k > 0; k-- {
			op := g.op(s.Kind)
			op.Type, op.Key = ``, key()
			if s.Kind == `cli` && strings.HasPrefix(op.Key, `lookup_options`) {
				op.Key = `s0`
			}
			op.Explain = g.Pick(``, `data`, `data`, `both`)
			if s.Kind == `lib` && inv > 0 {
				op.Inv, op.Vars, op.Scope, op.Explain = inv, first.Vars, first.Scope, ex
			}
			ops = append(ops, op)
		}
		s.Clients = append(s.Clients, ops)
	}
	if g.P(0.4) {
		s.Faults = g.IOFaults(s.U, 1)
	}
	return s
}

func runC23(r *Run) {
	text := map[string]string{}
	explained := 0
	judge := func(x *Exec, d *Done) {
		if t := secret.FindString(d.Text); t != `` {
			if d.Op.Explain != `` {
				x.Fail(`secret`, "the explanation of %s shows the secret %s:\n%s", d.Op.id(), t, d.Text)
			}
			return
		}
		if d.Op.Explain != `` && strings.Contains(d.Text, redacted) {
			explained++
		}
	}
	exp := map[string]Outcome{}
	for _, c := range r.Spec.Clients {
		for _, o := range c {
			if _, ok := exp[o.id()]; ok || r.Stop() {
				continue
			}
			one := *r.Spec
			one.Clients = [][]*Op{{o}}
			r.Sub(func(x *Exec) {
				x.Spec = &one
				x.Install(false)
				x.Drive(func(d *Done) { exp[o.id()] = d.Out; text[o.id()] = d.Text; judge(x, d) })
			})
			if r.Stop() {
				return
			}
			if o.Explain != `` && r.Spec.Kind == `cli` {
				continue
			}
			w := modelOf(r.Spec).op(r.Spec, o)
			r.A.Stats[`probe:model `+w.Status]++
			if w.Status != `unknown` && !w.Same(exp[o.id()]) {
				r.Fail(`wrong`, `%s of %s alone gives %s, but the hierarchy defines %s`, r.Spec.Kind, o.id(), exp[o.id()], w)
			}
		}
	}
	if r.Stop() {
		return
	}
	before := map[[2]int]string{}
	r.Main(func(x *Exec) {
		x.Install(true)
		ok := x.Drive(func(d *Done) {
			judge(x, d)
			e := exp[d.Op.id()]
			if d.Out.Status == `error` {
				if e.Status != `error` && !x.fired(d.From, d.To) {
					x.Fail(`spurious`, `%s gives %s, but %s alone`, d.Op.id(), d.Out, e)
				}
			} else if !d.Out.Same(e) {
				x.Fail(`wrong`, `%s gives %s, but %s alone`, d.Op.id(), d.Out, e)
			}
			if d.Op.Explain == `` || x.S.Failed() {
				return
			}
			// What is not secret remains visible, whatever has been looked up before.
			now := d.Text
			if d.Op.Inv > 0 {
				id := [2]int{d.Client, d.Op.Inv}
				now = strings.TrimPrefix(now, before[id])
				before[id] = d.Text
			}
			if strings.Contains(now, redacted) && !strings.Contains(text[d.Op.id()], redacted) {
				x.Fail(`hidden`, "the explanation of %s hides a value that is not secret:\n%s\nalone it is:\n%s", d.Op.id(), now, text[d.Op.id()])
			}
		})
		if !ok {
			x.Fail(`stall`, `lookups do not end: %s`, x.S.Blocked())
		}
		for _, l := range x.Log {
			if t := secret.FindString(l.Data); t != `` {
				x.Fail(`secret`, `the log shows the secret %s: %s`, t, l.Data)
			}
		}
	})
	r.A.Nontriv = explained > 0
}
