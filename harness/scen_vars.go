//go:build go1.22

package zzsim

import (
	"encoding/json"
	"regexp"
	"strings"

	"simkit/world"
)

func init() {
	scenarios[`C14`] = &Scenario{Gen: genC14, Run: runC14,
		Rule: `a case is a hierarchy whose data and paths show variables and facts that come inline, from 1-4 files and from standard input (valid, empty, broken, missing, not a hash, replaced meanwhile), for 1-3 lookups of the command line or 1-4 concurrent clients of the server, with I/O faults on those files; non-trivial when a variable file is used`}
}

var varNames = []string{`a`, `b`, `c`, `env`}

func (g *Gen) varFile() *DataFile {
	if g.P(0.15) {
		return &DataFile{Raw: g.Pick("- a\n- b\n", "just text\n", "a: [1\n", "{\"a\": 1,\n", "a: b: c\n", "42\n", "~\n")}
	}
	if g.P(0.05) {
		return &DataFile{Dir: true}
	}
	d := map[string]interface{}{}
	for _, n := range varNames {
		switch {
		case g.P(0.4):
		case n == `env`:
			d[n] = g.Pick(scopeVars[n]...)
		case g.P(0.15):
			d[n] = g.Tag(`v`) + `<%{` + g.Pick(`b`, `c`, `nosuch`) + `}>`
			if n == `b` || n == `c` {
				d[n] = g.Tag(`v`)
			}
		case g.P(0.15):
			g.tag++
			d[n] = int64(g.tag)
		default:
			d[n] = g.Tag(`v`)
		}
	}
	if g.P(0.3) {
		d[`m`] = map[string]interface{}{`k`: g.Tag(`v`)}
	}
	if g.P(0.1) {
		d[g.Pick(`facts`, `n::v`)] = g.Tag(`v`)
	}
	return &DataFile{Data: d}
}

func genC14(g *Gen) *Spec {
	s := &Spec{Kind: g.Pick(`rest`, `cli`), Policy: g.Policy(), MaxSteps: 6000000}
	u := &Universe{Files: map[string]*DataFile{}}
	s.U = u
	u.Entries = []*Entry{{Name: `env`, Path: `env/%{env}.yaml`}, {Name: `common`, Path: `common.yaml`}}
	for _, e := range scopeVars[`env`] {
		u.Files[`env/`+e+`.yaml`] = &DataFile{Data: map[string]interface{}{`s1`: g.Tag(`v`) + ` %{env}`}}
	}
	u.Files[`common.yaml`] = &DataFile{Data: map[string]interface{}{
		`s0`: `%{a}|%{b}|%{c}|%{m.k}|%{env}`, `s4`: `%{n::v}|%{a}|%{m}|%{b.0}|%{c.k}`, `s5`: `%{facts}`, `s1`: `no env %{env}`, `s2`: `%{facts.a}|%{facts.b}|%{facts.m.k}|%{scope('facts.env')}`, `s3`: `%{lookup('s0')}/%{lookup('s2')}`}}
	u.Files[`/vars/x.txt`] = &DataFile{Raw: `x`}
	stdin := false
	inline := func() string {
		if g.P(0.25) {
			m, q, a := `{"k":"`+g.Tag(`i`)+`"}`, `x`, `{"`+g.Tag(`i`)+`", 3}`
			if s.Kind == `cli` {
				q, a = `'`, strings.NewReplacer(`{`, `[`, `}`, `]`).Replace(a)
				m = strings.Replace(m, `:`, g.Pick(`=>`, ` => `), 1)
			}
			sp := g.Pick(``, ``, ` `)
			return g.Pick(append([]string{`m`, `facts`, `n::v`, `a.b`}, varNames...)...) + sp + g.Pick(`=`, `:`) + sp + g.Pick(m, m, a, `"`+g.Tag(`i`)+` "`, q+g.Tag(`i`)+q, `x=y`, `x:y`, g.Tag(`i`)+sp, `%{b}`)
		}
		return g.Pick(varNames...) + g.Pick(`=`, `:`) + g.Pick(g.Tag(`i`), `dev`, `prod`)
	}
	for i, n := 0, 1+g.Intn(4); i < n; i++ {
		flag := `--vars`
		if s.Kind == `cli` && g.P(0.5) {
			flag = `--facts`
		}
		switch {
		case !stdin && g.P(0.2):
			stdin = true
			s.Args = append(s.Args, flag, `-`)
			if f := g.varFile(); !f.Dir && g.P(0.9) {
				s.Stdin = f.Text()
			}
			if s.S == nil {
				s.S = map[string]string{}
			}
			continue
		case i > 0 && g.P(0.2):
			s.Args = append(s.Args, `--var`, inline())
			continue
		}
		p := `/vars/v` + itoa(i) + `.` + g.Pick(`yaml`, `json`)
		if g.P(0.95) {
			u.Files[p] = g.varFile()
		}
		s.Args = append(s.Args, flag, p)
	}
	n := 1
	if s.Kind == `rest` {
		n = 1 + g.Intn(4)
	}
	for i := 0; i < n; i++ {
		var ops []*Op
		for k := 1 + g.Intn(3); k > 0; k-- {
			o := &Op{Do: `lookup`, Key: g.Pick(`s0`, `s1`, `s2`, `s3`, `s4`, `s5`, `nokey`)}
			if g.P(0.3) {
				o.Vars = append(o.Vars, inline())
			}
			if g.P(0.2) {
				d := g.Tag(`dflt`)
				o.Default = &d
			}
			if g.P(0.3) {
				o.DelayMs = g.Intn(5)
			}
			ops = append(ops, o)
			if stdin && s.Kind == `cli` {
				break
			}
		}
		s.Clients = append(s.Clients, ops)
	}
	paths := append(s.varPaths(), `-`)
	for k := g.Intn(3); k > 0; k-- {
		p := paths[g.Intn(len(paths))]
		if p == `-` && !stdin {
			continue
		}
		f := &world.Fault{Op: g.Pick(`open`, `read`, `read`), Path: p, Kind: g.Pick(`EIO`, `EACCES`, `EMFILE`), Nth: []int{0, 1, 2, -2}[g.Intn(4)]}
		if p == `-` {
			f.Op = `read`
		}
		if f.Op == `read` {
			f.Kind, f.Off = g.Pick(`EIO`, `ESTALE`, `short`), g.Intn(3)*9
		}
		dup := false
		for _, o := range s.Faults {
			dup = dup || o.Op == f.Op && o.Path == f.Path
		}
		if !dup {
			s.Faults = append(s.Faults, f)
		}
	}
	for k := g.Intn(3); k > 0; k-- {
		p := paths[g.Intn(len(paths)-1)]
		if p == `-` || u.Files[p] != nil && u.Files[p].Dir {
			continue
		}
		e := &Event{Do: `put`, Path: p, AtMs: g.Intn(6)}
		if g.P(0.15) {
			e.Do = `remove`
		} else if e.File = g.varFile(); e.File.Dir {
			continue
		}
		if g.P(0.7) {
			e.On, e.Nth = g.Pick(`open `, `open-done `, `read `, `read-done `)+p, 1+g.Intn(3)
		}
		s.Events = append(s.Events, e)
	}
	return s
}

// varPaths lists the files with variables and facts.
func (s *Spec) varPaths() (ps []string) {
	ps = []string{}
	for i := 0; i+1 < len(s.Args); i += 2 {
		if s.Args[i] != `--var` && s.Args[i+1] != `-` {
			ps = append(ps, s.Args[i+1])
		}
	}
	if len(ps) == 0 {
		ps = append(ps, `/vars/x.txt`)
	}
	return
}

var varExpr = regexp.MustCompile(`\A(.*?[^:=])[:=]([^:=].*)\z`)

// inlineValue is the value of a variable that is given with --var or in a request.
func inlineValue(t string) interface{} {
	var v interface{}
	switch t[0] {
	case '\'':
		return strings.Trim(t, `'`)
	case '"', '[', '{':
		t = strings.Replace(strings.Replace(t, ` => `, `:`, 1), `=>`, `:`, 1)
		if strings.HasSuffix(t, ` 3}`) {
			t = `[` + t[1:len(t)-1] + `]`
		}
		if err := json.Unmarshal([]byte(t), &v); err != nil {
			panic(err)
		}
		return normalize(v)
	}
	return t
}

// varScope is the scope that the arguments of a command and of an operation define.
func (m *model) varScope(s *Spec, o *Op, at func(p string) *DataFile) map[string]interface{} {
	scope := map[string]interface{}{}
	for _, e := range append(srvVars(s), o.Vars...) {
		g := varExpr.FindStringSubmatch(e)
		scope[strings.TrimSpace(g[1])] = inlineValue(strings.TrimSpace(g[2]))
	}
	load := func(flag string, to map[string]interface{}) bool {
		some := false
		for i := 0; i+1 < len(s.Args); i += 2 {
			if s.Args[i] != flag {
				continue
			}
			some = true
			f := at(s.Args[i+1])
			if f == nil || f.Dir || f.Raw != `` {
				m.fail(`variable file`)
			}
			for k, v := range f.Data {
				to[k] = normalize(v)
			}
		}
		return some
	}
	load(`--vars`, scope)
	facts := map[string]interface{}{}
	if load(`--facts`, facts) {
		for k, v := range facts {
			scope[k] = v
		}
		scope[`facts`] = facts
	}
	return scope
}

func runC14(r *Run) {
	s := r.Spec
	var ds []*Done
	var x *Exec
	r.Main(func(y *Exec) {
		x = y
		x.Install(true)
		if !x.Drive(func(d *Done) { ds = append(ds, d) }) {
			x.Fail(`stall`, `lookups do not end: %s`, x.S.Blocked())
		}
	})
	if r.Stop() {
		return
	}
	var input *DataFile // what standard input holds
	if s.Stdin == `` {
		input = &DataFile{Data: map[string]interface{}{}}
	} else if input = s.stdinData(); input == nil {
		input = &DataFile{Raw: s.Stdin}
	}
	uses := map[string]bool{}
	for i := 0; i+1 < len(s.Args); i += 2 {
		uses[s.Args[i+1]] = s.Args[i] != `--var`
	}
	for _, d := range ds {
		from := d.From
		if uses[`-`] {
			from = 0
		}
		vs := map[string][]*DataFile{}
		for _, p := range s.varPaths() {
			if f := s.U.files()[p]; f != nil && f.Dir {
				continue
			}
			for _, nd := range x.W.FS.Versions(p, d.From, d.To) {
				vs[p] = append(vs[p], s.dataOf(p, nd))
			}
		}
		excused, alone, hit := false, true, false
		for _, o := range ds {
			alone = alone && (o == d || o.To < d.From || o.From > d.To)
		}
		for _, f := range x.W.Fired {
			if f.Seq < d.To && (f.Seq > d.From || f.Path == `-` && f.Seq > from) && uses[f.Path] {
				excused = true
				hit = hit || f.Seq > d.From
			}
		}
		for _, f := range s.Faults {
			if f.Nth == 0 && hard(f) && uses[f.Path] && d.Out.Status != `error` && (f.Op == `open` || f.Off == 0) {
				r.Fail(`ignored`, `%s gives %s although the variables in %s cannot be read`, d.Op.id(), d.Out, f.Path)
				return
			}
		}
		if hit && alone && d.Out.Status != `error` {
			r.Fail(`ignored`, `%s gives %s although reading the variables failed`, d.Op.id(), d.Out)
			return
		}
		if d.Out.Status == `error` && excused {
			continue
		}
		var exp Outcome
		if !assignments(vs, func(a map[string]*DataFile) bool {
			m := modelOf(s)
			exp = m.run(func() (interface{}, bool) {
				m.scope = m.varScope(s, d.Op, func(p string) *DataFile {
					if p == `-` {
						return input
					}
					if f := s.U.files()[p]; f != nil && f.Dir {
						return f
					}
					return a[p]
				})
				v, ok := m.lookup(d.Op.Key, ``)
				if !ok && d.Op.Default != nil {
					v, ok = *d.Op.Default, true
				}
				return v, ok
			})
			return exp.Status == `unknown` || exp.Same(d.Out)
		}) {
			r.Fail(`variables`, `%s with %q gives %s, but the variables lead to %s`, d.Op.id(), s.Args, d.Out, exp)
			return
		}
	}
	r.A.Nontriv = len(s.Args) > 0 && len(ds) > 0
}

// stdinData is the structured form of standard input.
func (s *Spec) stdinData() *DataFile {
	c, ok := canonJSON(s.Stdin)
	if !ok || !strings.HasPrefix(c, `{`) {
		return nil
	}
	f := &DataFile{}
	jsonInto(c, &f.Data)
	return f
}
