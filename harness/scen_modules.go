//go:build go1.22

package zzsim

import (
	"reflect"
	"regexp"
	"strings"

	"simkit/simrt"
	"simkit/world"
)

var tagRe = regexp.MustCompile(`[a-z]+~[0-9]+`)

var modNames = []string{`alpha`, `beta`, `gamma`}

// modules draws modules in one or two directories of the module path.
func (g *Gen) modules(s *Spec, caseVariants bool) {
	if s.S == nil {
		s.S = map[string]string{}
	}
	dirs := []string{`/mods`}
	if g.P(0.5) {
		dirs = append(dirs, `/mods2`)
	}
	s.S[`modulepath`] = dirs[0]
	if len(dirs) > 1 {
		s.S[`modulepath`] += `:` + dirs[1]
	}
	s.U.Modules = map[string]*Module{}
	for _, d := range dirs {
		for _, n := range modNames {
			vs := []string{n}
			if caseVariants && g.P(0.5) {
				vs = append(vs, string(n[0]-32)+n[1:])
				if g.P(0.3) {
					vs = append(vs, n[:2]+string(n[2]-32)+n[3:])
				}
			}
			for _, v := range vs {
				if g.P(0.3) {
					continue
				}
				m := &Module{Dir: d + `/` + v, Files: map[string]*DataFile{}}
				switch {
				case g.P(0.1):
					m.NoCfg = true
				case caseVariants && g.P(0.08):
					m.NoCfg, m.CfgDir = true, true
				case caseVariants && g.P(0.15):
					m.File = true
				default:
					g.moduleData(m, n)
				}
				s.U.Modules[m.Dir] = m
			}
		}
		s.U.Modules[d+`/zz`] = &Module{Dir: d + `/zz`, NoCfg: true}
		if caseVariants && g.P(0.3) {
			// many other things
			for n := 1 + g.Intn(120); n > 0; n-- {
				m := &Module{Dir: d + `/` + g.Pick(`al`, `b`, `alphabet`, `zz`, ``) + itoa(n), NoCfg: true, File: g.P(0.2)}
				s.U.Modules[m.Dir] = m
			}
		}
	}
}

func (g *Gen) moduleData(m *Module, n string) {
	for i := 1 + g.Intn(2); i > 0; i-- {
		e := &Entry{Name: `m` + itoa(i), Path: `f` + itoa(i) + `.yaml`}
		switch g.Intn(12) {
		case 0, 1, 2:
			e.Path = `env` + itoa(i) + `/%{env}.yaml` // a file of its own
		case 3, 4:
			e.Path, e.Glob = ``, g.Pick(`g`+itoa(i)+`/*.yaml`, `g`+itoa(i)+`/*/x.yaml`, `g`+itoa(i)+`/**/*.yaml`)
		case 5:
			e.Path, e.Paths = ``, []string{`x/%{x}.yaml`, e.Path}
		case 6:
			e.Path, e.Mapped = ``, []string{`roles`, `r`, `r` + itoa(i) + `/%{r}.yaml`}
		case 7:
			e.Path, e.Kind, e.Fn = `j`+itoa(i)+`.json`, `data_hash`, `json_data`
		}
		m.Entries = append(m.Entries, e)
		for _, p := range e.candidates() {
			if m.Files[p] == nil && g.P(0.85) {
				m.Files[p] = g.moduleFile(n)
			}
		}
	}
	if g.P(0.15) {
		m.Defaults = &Entry{Kind: `data_hash`, Fn: g.Pick(`json_data`, `json_data`, `yaml_data`)}
	}
}

func (g *Gen) moduleFile(n string) *DataFile {
	d := map[string]interface{}{}
	for _, k := range []string{`s0`, `s1`} {
		if g.P(0.7) {
			d[n+`::`+k] = g.Tag(`v`)
			switch {
			case g.P(0.2):
				d[n+`::`+k] = g.Tag(`v`) + ` %{lookup('s0')}`
			case g.P(0.1):
				d[n+`::`+k] = g.Tag(`v`) + ` %{hiera('` + g.Pick(modNames...) + `::` + g.Pick(`s1`, `h0.p`, `a0.0`) + `')}`
			case g.P(0.1):
				d[n+`::`+k] = `%{alias('` + g.Pick(modNames...) + `::` + g.Pick(`s1`, `a0`, `h0`) + `')}`
			}
		}
	}
	if g.P(0.7) {
		d[n+`::a0`] = []interface{}{g.Tag(`a`), g.Pick(`c1`, `c2`)}
	}
	if g.P(0.7) {
		d[n+`::h0`] = map[string]interface{}{`p`: g.Tag(`v`), g.Pick(`q`, `r`): g.Tag(`v`)}
	}
	if g.P(0.3) {
		d[`lookup_options`] = map[string]interface{}{n + `::a0`: map[string]interface{}{`merge`: `unique`}, n + `::h0`: map[string]interface{}{`merge`: `deep`}}
	}
	if g.P(0.3) {
		// the name of a module in other letters, and names that go on
		d[strings.ToUpper(n[:1])+n[1:]+`::s0`] = g.Tag(`v`)
		d[strings.ToUpper(n)+`::a0`] = []interface{}{g.Tag(`a`), []interface{}{g.Pick(`c1`, `c2`)}}
		d[n+`::sub::s0`] = g.Tag(`v`)
		d[n+`::sub::a0`] = []interface{}{g.Tag(`a`), g.Pick(`c1`, `c2`)}
		if lo, ok := d[`lookup_options`].(map[string]interface{}); ok {
			lo[n+`::sub::a0`] = map[string]interface{}{`merge`: `unique`}
			lo[`s0`] = map[string]interface{}{`merge`: `unique`} // not of this module
			lo[modNames[g.Intn(3)]+`::s0`] = map[string]interface{}{`merge`: `unique`}
			// in other letters it is no option of this module
			lo[strings.ToUpper(n[:1])+n[1:]+`::s0`] = map[string]interface{}{`merge`: `unique`}
			lo[strings.ToUpper(n)+`::a0`] = map[string]interface{}{`merge`: `unique`}
		}
	}
	return &DataFile{Data: d}
}

// aboveModules lets the global hierarchy have values and options for keys of modules.
func (g *Gen) aboveModules(u *Universe) {
	for _, p := range sortedKeys(u.Files) {
		d := u.Files[p].Data
		if d == nil || g.P(0.4) {
			continue
		}
		for _, n := range modNames {
			if g.P(0.5) {
				d[n+`::a0`] = []interface{}{g.Pick(`c1`, `c2`), g.Tag(`g`)}
			}
			if g.P(0.4) {
				d[n+`::h0`] = map[string]interface{}{`p`: g.Tag(`g`), g.Pick(`q`, `r`, `z`): g.Tag(`g`)}
			}
			if g.P(0.3) {
				d[n+`::s0`] = g.Tag(`g`)
			}
			if g.P(0.5) {
				lo, ok := d[`lookup_options`].(map[string]interface{})
				if !ok {
					lo = map[string]interface{}{}
					d[`lookup_options`] = lo
				}
				if g.P(0.4) {
					lo[n+`::a0`] = map[string]interface{}{`merge`: g.Pick(`unique`, `first`, `deep`)}
				}
				if g.P(0.4) {
					lo[n+`::h0`] = map[string]interface{}{`merge`: g.Pick(`hash`, `first`, `deep`)}
				}
				if g.P(0.3) {
					lo[n+`::`+g.Pick(`s0`, `a0`, `h0`)] = map[string]interface{}{`convert_to`: `sensitive`}
				}
			}
		}
	}
}

func (g *Gen) modKey() string {
	n := g.Pick(modNames...)
	switch g.Intn(12) {
	case 0:
		n = `nosuch`
	}
	if g.P(0.1) {
		return g.Pick(strings.ToUpper(n[:1])+n[1:]+`::s0`, n+`::sub::s0`, n+`::sub::a0`, n+`::sub::a0.1`, `::`+n+`::s0`, `::s0`, strings.ToUpper(n)+`::a0`)
	}
	return n + `::` + g.Pick(`s0`, `s0`, `s1`, `a0`, `h0`, `h0.p`, `nokey`)
}

func init() {
	scenarios[`C16`] = &Scenario{Gen: genC16, Run: runC16,
		Rule: `a case is 1-3 modules in 1-2 directories of the module path (names in several cases, modules without or with broken configurations), looked up by 1-5 concurrent clients, by themselves or next to a global hierarchy, while listings, examinations and reads of module directories, configurations and data fail or are slow, and again after all faults have ended and what was broken is repaired; non-trivial when lookups overlapped or a fault fired`}
}

func genC16(g *Gen) *Spec {
	s := &Spec{Kind: `lib`, Top: g.Pick(`mux-module`, `mux-module`, `module`), Policy: g.Policy(), MaxSteps: 6000000, N: map[string]int{}, S: map[string]string{}}
	s.U = g.Universe(uopt{interp: true, options: true, maxEntry: 2})
	g.modules(s, g.P(0.4))
	if s.Top == `mux-module` && g.P(0.5) {
		g.aboveModules(s.U)
	}
	if g.P(0.2) {
		s.S[`modulepath`] = g.Pick(`/nodir:`+s.S[`modulepath`], s.S[`modulepath`]+`:/nodir`)
	}
	end := 5 + g.Intn(40)
	s.N[`end`] = end
	for _, k := range sortedKeys(s.U.Modules) {
		m := s.U.Modules[k]
		if m.Entries != nil && g.P(0.12) {
			m.Raw = g.Pick("version: 5\nhierarchy: nope\n", "version: 4\n", "{", "- a\n", "hierarchy: [\n")
		}
		if m.Entries != nil && g.P(0.3) {
			// references to a module that comes later
			for _, p := range sortedKeys(m.Files) {
				n, o := modNames[0], modNames[1+g.Intn(2)]
				m.Files[p].Data[n+`::s1`] = g.Tag(`v`) + ` %{lookup('` + o + `::s0')}`
				break
			}
		}
	}
	dirs := []string{}
	mods := map[string]bool{}
	for _, k := range sortedKeys(s.U.Modules) {
		m := s.U.Modules[k]
		d := m.Dir[:strings.LastIndex(m.Dir, `/`)]
		if !mods[d] {
			mods[d] = true
			dirs = append(dirs, d)
		}
	}
	all := sortedKeys(s.U.files())
	for n := g.Intn(4); n > 0; n-- {
		f := &world.Fault{Path: dirs[g.Intn(len(dirs))], Nth: []int{0, 1, 1, 2, 3, -2}[g.Intn(6)], Kind: g.Pick(`EIO`, `EACCES`, `EMFILE`, `slow`), Ms: 1 + g.Intn(10)}
		mk := sortedKeys(s.U.Modules)
		m := s.U.Modules[mk[g.Intn(len(mk))]]
		switch g.Intn(6) {
		case 0, 1:
			f.Op = g.Pick(`open`, `readdir`)
		case 2:
			f.Op, f.Path = `lstat`, m.Dir+`/hiera.yaml`
		case 3:
			f.Op, f.Path = g.Pick(`open`, `read`), m.Dir+`/hiera.yaml`
		case 4:
			if len(all) == 0 {
				continue
			}
			f.Op, f.Path = g.Pick(`stat`, `open`, `read`), all[g.Intn(len(all))]
		default:
			f.Op, f.Path, f.Kind = g.Pick(`open`, `lstat`), ``, `slow`
			f.Nth = 1 + g.Intn(10)
		}
		if f.Op == `read` {
			f.Off = g.Intn(3) * 15
		}
		dup := false
		for _, o := range s.Faults {
			dup = dup || o.Op == f.Op && o.Path == f.Path
		}
		if !dup {
			s.Faults = append(s.Faults, f)
		}
	}
	s.Events = append(s.Events, &Event{AtMs: end, Do: `clear-faults`})
	for _, k := range sortedKeys(s.U.Modules) {
		if m := s.U.Modules[k]; m.Raw != `` {
			s.Events = append(s.Events, &Event{AtMs: end, Do: `put`, Path: m.Dir + `/hiera.yaml`, Data: m.configText()})
		}
	}
	common := g.modKey()
	if g.P(0.3) {
		// nothing but first lookups, all at once
		s.Faults, s.Events, s.N[`end`] = nil, nil, 0
		for _, m := range s.U.Modules {
			if m.Entries != nil {
				m.Raw = ``
			}
		}
		s.Policy = simrt.Policy{Kind: `walk`, PreemptP: []float64{0.02, 0.1, 0.3, 0.5}[g.Intn(4)], IOP: []float64{0.1, 0.5, 0.8}[g.Intn(3)]}
		for i := 2 + g.Intn(5); i > 0; i-- {
			o := g.libOp()
			o.Key, o.DelayMs = g.modKey(), 0
			s.Clients = append(s.Clients, []*Op{o})
		}
		return s
	}
	for i := 1 + g.Intn(5); i > 0; i-- {
		var ops []*Op
		for k := 1 + g.Intn(3); k > 0; k-- {
			o := g.libOp()
			switch g.Intn(6) {
			case 0:
				o.Key = common
			case 1:
			default:
				o.Key = g.modKey()
			}
			if g.P(0.15) && strings.Contains(o.Key, `::`) {
				o.Key = string(o.Key[0]-32) + o.Key[1:]
			}
			if g.P(0.3) {
				o.DelayMs = g.Intn(end)
			}
			ops = append(ops, o)
		}
		for k := 1 + g.Intn(2); k > 0; k-- {
			o := *ops[g.Intn(len(ops))]
			o.DelayMs = end + 200
			ops = append(ops, &o)
		}
		s.Clients = append(s.Clients, ops)
	}
	return s
}

// repaired is the universe after the events that put modules right.
func (s *Spec) repaired() *Spec {
	c := s.Clone()
	for _, m := range c.U.Modules {
		if m.Entries != nil {
			m.Raw = ``
		}
	}
	return c
}

func runC16(r *Run) {
	s := r.Spec
	bare := func(s *Spec) *Spec {
		c := s.Clone()
		for _, ops := range c.Clients {
			for _, o := range ops {
				o.DelayMs = 0
			}
		}
		return c
	}
	id := func(o *Op) string { c := *o; c.DelayMs = 0; return c.id() }
	orig := bare(s)
	fixed := bare(s.repaired())
	r.Spec = orig
	e1 := alone(r, false)
	e2 := e1
	if !r.Stop() && !reflect.DeepEqual(orig.U, fixed.U) {
		r.Spec = fixed
		e2 = alone(r, false)
	}
	r.Spec = s
	if r.Stop() {
		return
	}
	overlap := false
	r.Main(func(x *Exec) {
		x.Install(true)
		e := &ended{x: x}
		if !x.Drive(func(d *Done) { e.ds = append(e.ds, d) }) {
			x.Fail(`stall`, `lookups do not end: %s`, x.S.Blocked())
			return
		}
		end := ms(s.N[`end`])
		exc := e.excused(func(d *Done) bool {
			return (s.N[`end`] == 0 || d.Started <= end) && (x.fired(d.From, d.To) || e1[id(d.Op)].Status == `error`)
		})
		for _, d := range e.ds {
			for _, o := range e.ds {
				overlap = overlap || o != d && o.From < d.To && d.From < o.To
			}
			a, b := e1[id(d.Op)], e2[id(d.Op)]
			switch {
			case s.N[`end`] > 0 && d.Started > end+ms(1):
				if !d.Out.Same(b) {
					x.Fail(`remembered`, `%s gives %s after all faults have ended, but the module gives %s`, d.Op.id(), d.Out, b)
				}
			case d.Out.Same(a), d.Ended >= end && d.Out.Same(b):
			case d.Out.Status == `error`:
				if !exc[d] {
					x.Fail(`spurious`, `%s gives %s without a cause, but the module gives %s`, d.Op.id(), d.Out, a)
				}
			default:
				x.Fail(`module`, `%s gives %s, but the module gives %s`, d.Op.id(), d.Out, a)
			}
		}
		r.A.Nontriv = overlap || len(x.W.Fired) > 0
	})
}
