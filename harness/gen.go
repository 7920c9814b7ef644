//go:build go1.22

package zzsim

import (
	"fmt"
	"path"
	"strings"

	"simkit/simrt"
	"simkit/world"
)

// Gen draws specs.
type Gen struct {
	*simrt.RNG
	Tier string
	tag  int
}

func newGen(seed uint64, tier string) *Gen { return &Gen{RNG: simrt.NewRNG(seed*2 + 1), Tier: tier} }

// Pick draws one of the given values.
func (g *Gen) Pick(ls ...string) string { return ls[g.Intn(len(ls))] }

// Tag makes a value that occurs nowhere else.
func (g *Gen) Tag(what string) string { g.tag++; return fmt.Sprintf(`%s~%d`, what, g.tag) }

// Policy draws a scheduling policy.
func (g *Gen) Policy() simrt.Policy {
	switch g.Intn(10) {
	case 0:
		return simrt.Policy{Kind: `seq`}
	case 1, 2, 3:
		return simrt.Policy{Kind: `pct`, Depth: 1 + g.Intn(5), Span: []int{300, 1000, 3000, 10000}[g.Intn(4)]}
	}
	return simrt.Policy{Kind: `walk`, PreemptP: []float64{0.001, 0.005, 0.02, 0.1, 0.4}[g.Intn(5)], IOP: []float64{0, 0.05, 0.3, 0.6}[g.Intn(4)]}
}

// U options.
type uopt struct {
	interp   bool // interpolations in values
	options  bool // lookup_options
	mapped   bool
	broken   bool // broken sources
	funcs    bool // functions of the session
	pcore    bool // types in the pcore dialect
	maxEntry int
	more     bool // rarer features of the configuration and of values
}

var scopeVars = map[string][]string{`env`: {`dev`, `prod`}, `role`: {`web`, `db`}, `x`: {`x1`, `x2`}, `y`: {`y1`, `y2`, `y3`}}
var scopeNames = []string{`env`, `role`, `x`, `y`}

const nS, nI, nA, nH = 5, 2, 2, 2

// Universe draws a hierarchy with data.
func (g *Gen) Universe(o uopt) *Universe {
	u := &Universe{Files: map[string]*DataFile{}}
	if o.more && g.P(0.3) {
		g.more(u, &o)
	}
	n := 1 + g.Intn(4)
	if o.maxEntry > 0 && n > o.maxEntry {
		n = o.maxEntry
	}
	for i := 0; i < n; i++ {
		e := &Entry{Name: fmt.Sprintf(`e%d`, i)}
		k := g.Intn(9)
		if o.more && g.P(0.2) {
			k = 9 + g.Intn(4)
		}
		switch {
		case k < 3:
			e.Path = g.Pick(`env/%{env}.yaml`, `role/%{role}.yaml`, `x/%{x}.yaml`, `both/%{env}-%{y}.yaml`)
		case k == 3 && o.mapped:
			e.Mapped = []string{`roles`, `r`, `role/%{r}.yaml`}
			if o.more && g.P(0.5) {
				e.Mapped = []string{g.Pick(`roles`, `roles`, `m.l`, `role`), g.Pick(`r`, `env`), `role/%{r}-%{env}.yaml`}
			}
		case k == 4:
			e.Paths = []string{fmt.Sprintf(`p%d.yaml`, i), `env/%{env}.yaml`, `common.yaml`}
			if g.P(0.5) {
				e.Paths = e.Paths[1:]
			}
		case k == 5:
			e.Path = fmt.Sprintf(`j%d.json`, i)
			e.Kind, e.Fn = `data_hash`, `json_data`
		case k == 6:
			e.Glob = fmt.Sprintf(g.Pick(`g%d/*.yaml`, `g%d/*.yaml`, `g%d/**/*.yaml`, `g%d/*/x.yaml`, `g%d/{a,m}*.yaml`, `g%d/[l-n].yaml`, `g%d/s/?.yaml`, `g%d/{s,m}/**/{x,k}.yaml`), i)
			if o.interp && g.P(0.25) {
				e.Glob = fmt.Sprintf(g.Pick(`g%d/%%{env}*.yaml`, `g%d/%%{role}/**/*.yaml`, `g%d/*/%%{x}.yaml`), i)
			}
		case k == 9:
			e.Globs = []string{fmt.Sprintf(`ga%d/*.yaml`, i), fmt.Sprintf(`gb%d/*.yaml`, i)}
		case k == 10:
			e.Path, e.DataDir = `common.yaml`, g.Pick(`over/%{env}`, `over`, `/abs/data`, `.`)
		case k == 11:
			e.Kind, e.Fn = `lookup_key`, g.Pick(`environment`, `scope`, `scope`)
			if g.P(0.2) {
				e.Path = fmt.Sprintf(`f%d.yaml`, i)
			}
		case k == 12:
			e.Paths, e.DataDir = []string{`a/%{role}.yaml`, `%{x}/b.json`, `c.yaml`}, g.Pick(`over/%{env}`, `over`, `/abs/data`)
		default:
			e.Path = fmt.Sprintf(`f%d.yaml`, i)
		}
		if e.Kind != `` && o.more {
			e.FnIpl = g.P(0.2)
		}
		if e.DataDir != `` && u.DD != `` && g.P(0.3) {
			e.DataDir = `data` // what would have been the default
		}
		e.NoOpts = o.more && g.P(0.15)
		u.Entries = append(u.Entries, e)
	}
	if o.more && g.P(0.15) {
		for _, e := range u.Entries {
			if g.P(0.6) {
				u.DefHier = append(u.DefHier, &Entry{Name: e.Name, Path: `dh/` + e.Name + g.Pick(`.yaml`, `%{env}.yaml`)})
				u.Files[`dh/`+e.Name+`.yaml`] = g.File(``, o)
			}
		}
	}
	for i := range u.Entries {
		if o.funcs && g.P(0.3) && u.Entries[i].Fn != `scope` && u.Entries[i].Fn != `environment` {
			u.Entries[i] = g.fnEntry(u.Entries[i], o)
		}
	}
	for _, e := range u.Entries {
		ps, skip := e.candidates(), 0.2
		if len(ps) > 6 {
			skip = 0.6
		}
		for _, p := range ps {
			if _, ok := u.Files[p]; ok || g.P(skip) {
				continue
			}
			u.Files[p] = g.File(p, o)
			if o.broken && g.P(0.06) {
				u.Files[p] = g.broken(p)
			}
		}
	}
	return u
}

// more adds rarer features to the configuration: where the data is, and what entries do by default.
func (g *Gen) more(u *Universe, o *uopt) {
	d := &Entry{}
	switch g.Intn(4) {
	case 0:
		u.DD = g.Pick(`alt`, `/abs/alt`)
		d.DataDir = u.DD
	case 1:
		d.DataDir = `data`
		if o.interp {
			d.DataDir = `da%{none}ta`
		}
	}
	switch g.Intn(4) {
	case 0:
		d.Kind, d.Fn = `data_hash`, g.Pick(`yaml_data`, `json_data`)
		d.FnIpl = g.P(0.3)
	case 1:
		if o.funcs {
			e := g.fnEntry(&Entry{}, *o)
			d.Kind, d.Fn, d.Options = e.Kind, e.Fn, e.Options
		}
	}
	u.Defaults = d
}

func (g *Gen) broken(p string) *DataFile {
	if g.P(0.25) {
		return &DataFile{Dir: true}
	}
	if g.P(0.2) {
		return &DataFile{Blank: true}
	}
	if g.P(0.2) {
		// more than the one value
		if b := path.Base(p); strings.HasPrefix(b, `j`) && strings.HasSuffix(b, `.json`) {
			return &DataFile{Raw: g.Pick("{\"s0\": \"x\"}}\n", "{\"s0\": \"x\"} {\"s1\": \"y\"}\n", "{\"h0\": {}}\n]", "{}\n---\n{}\n", "{\"s0\": \"x\"} s1: y\n")}
		}
		return &DataFile{Raw: g.Pick("{\"s0\": \"x\"}\x00", "{\"s0\": \"x\"}\n\x01\n", "{\"s0\": \"x\"} }\x00\n")}
	}
	return &DataFile{Raw: g.Pick("null\n", "[1, 2]\n", "{\"s0\": ", "{\"s0\": \"x\" \"s1\"}\n", "\"s0\"", "a: [1\n", "- x\n- y\n", "just text\n", "a: b: c\n", "{\"s0\": \"x\",\n", "s0: x\n s1: y\n\tz\n")}
}

func (g *Gen) fnEntry(old *Entry, o uopt) *Entry {
	e := &Entry{Name: old.Name}
	k := g.Intn(3)
	e.Kind = []string{`lookup_key`, `data_hash`, `data_dig`}[k]
	e.Fn = []string{`fkey`, `fhash`, `fdig`}[k]
	switch g.Intn(4) {
	case 0:
		e.Path = `f` + old.Name + `.any`
	case 1:
		e.URIs = []string{`http://` + old.Name, `http://%{env}`}
	}
	fo := o
	fo.interp = false
	d := g.File(``, fo).Data
	e.Options = map[string]interface{}{`data`: d}
	if o.broken {
		var fail []interface{}
		if g.P(0.2) {
			fail = append(fail, g.Pick(`s0`, `s1`, `a0`, `h0`, `h1`, `lookup_options`))
		}
		if k == 1 && g.P(0.1) {
			fail = append(fail, g.Pick(`nothash`, `notarray`, `notint`))
		}
		if fail != nil {
			e.Options[`fail`] = fail
		}
	}
	return e
}

func (g *Gen) str(self int, o uopt) string {
	s := g.Tag(`v`)
	if !o.interp {
		return s
	}
	k := g.Intn(7)
	if o.more && g.P(0.3) {
		k = 7 + g.Intn(7)
	}
	switch k {
	case 0:
		return s + ` %{` + g.Pick(scopeNames...) + `}`
	case 1:
		if self+1 < nS {
			return s + ` %{lookup('s` + itoa(self+1+g.Intn(nS-self-1)) + `')}`
		}
	case 2:
		return s + ` %{literal(` + g.Pick(`'lit'`, `'lit'`, `' l t '`, `"'"`) + `)}`
	case 3:
		return s + ` %{scope('` + g.Pick(scopeNames...) + `')}/%{lookup('i` + itoa(g.Intn(nI)) + `')}`
	case 7:
		return s + ` %{` + g.Pick(`m.k`, `m.l.0`, `m.zz`, `m.n.k`, `nosuch`, `nosuch.x`, `roles.0`, `roles.1`) + `}`
	case 8:
		return s + ` %{` + g.Pick(``, `::`, `''`, `""`, ` `) + `}%{ env }%{` + g.Pick(`x`, `w`) + `}`
	case 9:
		return s + ` %{lookup("h` + itoa(g.Intn(nH)) + g.Pick(`.p`, `.q.p`, `.zz`, `.r.0`) + `")}`
	case 10:
		return `%{` + g.Pick(`alias`, `strict_alias`) + `('h` + itoa(g.Intn(nH)) + g.Pick(``, `.p`, `.q`) + `')}`
	case 11:
		return s + ` %{hiera('b0')} %{w}`
	case 12:
		return s + ` %{scope("m.k")}%{w}`
	}
	return s
}

func itoa(n int) string { return fmt.Sprint(n) }

// File draws the content of a data file.
func (g *Gen) File(path string, o uopt) *DataFile {
	d := map[string]interface{}{}
	for i := 0; i < nS; i++ {
		if g.P(0.45) {
			switch {
			case o.interp && g.P(0.08):
				d[`s`+itoa(i)] = `%{alias('h` + itoa(g.Intn(nH)) + `')}`
			default:
				d[`s`+itoa(i)] = g.str(i, o)
			}
		}
	}
	for i := 0; i < nI; i++ {
		if g.P(0.4) {
			g.tag++
			d[`i`+itoa(i)] = int64(g.tag)
			if i == 0 && o.more && g.P(0.3) {
				d[`i0`] = g.Pick(`101`, `17`, `ff`, `-1f`, `zz`)
			}
		}
	}
	if o.more {
		if g.P(0.6) {
			d[`b0`] = []interface{}{true, false, nil, 1.5, int64(0), ``, map[string]interface{}{}, []interface{}{}, []interface{}{nil, []interface{}{g.Tag(`a`)}}}[g.Intn(9)]
		}
		if g.P(0.1) {
			d[`ns::k`] = g.str(nS, o)
		}
		if g.P(0.15) {
			d[g.Pick(`h0.q`, `h0.q`, `7`, `s0's`, `s0.`)] = g.str(nS, o)
		}
	}
	for i := 0; i < nA; i++ {
		if g.P(0.5) {
			a := []interface{}{}
			for k := g.Intn(4); k >= 0; k-- {
				if o.more && g.P(0.1) {
					a = append(a, []interface{}{g.Pick(`c1`, `c2`), []interface{}{g.Pick(`c1`, g.Tag(`a`))}})
				}
				switch g.Intn(4) {
				case 0:
					a = append(a, g.Pick(`c1`, `c2`, `c3`))
				case 1:
					a = append(a, int64(g.Intn(4)))
				case 2:
					a = append(a, g.str(nS, o))
				default:
					a = append(a, g.Tag(`a`))
				}
			}
			if o.more && g.P(0.12) {
				a = []interface{}{}
			}
			d[`a`+itoa(i)] = a
		}
	}
	for i := 0; i < nH; i++ {
		if g.P(0.5) {
			d[`h`+itoa(i)] = g.hash(2, o)
		}
	}
	if o.options && g.P(0.4) {
		lo := map[string]interface{}{}
		for _, k := range []string{`a0`, `a1`, `h0`, `h1`, `i0`, `s0`} {
			if !g.P(0.35) {
				continue
			}
			m := map[string]interface{}{}
			switch k[0] {
			case 'a':
				m[`merge`] = `unique`
				if g.P(0.2) {
					m[`merge`] = `deep`
				}
			case 'h':
				m[`merge`] = g.Pick(`hash`, `deep`)
				if g.P(0.3) {
					m[`merge`] = map[string]interface{}{`strategy`: m[`merge`]}
					if g.P(0.5) {
						m[`merge`].(map[string]interface{})[`knockout_prefix`] = `=none=`
					}
				}
			case 'i':
				m[`convert_to`] = `string`
				if o.pcore {
					m[`convert_to`] = `String`
				}
				if o.more && g.P(0.4) {
					m = map[string]interface{}{`merge`: `first`}
				} else if o.more && g.P(0.2) {
					m[`convert_to`] = []interface{}{m[`convert_to`]}
				} else if o.more && g.P(0.4) {
					// with an argument: the radix of a number, or the format of a string
					m[`convert_to`] = []interface{}{m[`convert_to`], g.Pick(`%04d`, `%x`, `<%d>`)}
					if g.P(0.6) {
						m[`convert_to`] = []interface{}{`int`, int64([]int{2, 8, 10, 16, 7}[g.Intn(5)])}
						if o.pcore {
							m[`convert_to`].([]interface{})[0] = `Integer`
						}
					}
				}
			case 's':
				m[`merge`] = g.Pick(`first`, `unique`)
			}
			lo[k] = m
		}
		d[`lookup_options`] = lo
	}
	return &DataFile{Data: d}
}

func (g *Gen) hash(depth int, o uopt) map[string]interface{} {
	m := map[string]interface{}{}
	for _, k := range []string{`p`, `q`, `r`} {
		if g.P(0.35) {
			continue
		}
		switch {
		case depth > 0 && k == `q` && g.P(0.7):
			m[k] = g.hash(depth-1, o)
		case k == `r` && g.P(0.6):
			a := []interface{}{}
			for j := g.Intn(3); j >= 0; j-- {
				a = append(a, g.Pick(`c1`, `c2`, g.Tag(`e`)))
			}
			m[k] = a
		default:
			m[k] = g.str(nS, o)
			if o.more && g.P(0.08) {
				m[k] = nil
			}
		}
	}
	if o.more && g.P(0.3) {
		m[g.Pick(`x.y`, `1`)] = g.str(nS, o)
		if depth > 0 && g.P(0.3) {
			m[g.Pick(`x.y`, `1`)] = g.hash(0, o)
		}
	}
	if o.more && g.P(0.15) {
		m[g.Pick(`%{x}z`, `k%{none}k`, `%{nosuch}`, `%{env}%{y}`)] = g.str(nS, o)
	}
	if o.more && g.P(0.1) {
		m[g.Pick(`r`, `p`)] = []interface{}{}
	}
	if o.more && g.P(0.25) {
		m[`b`] = []interface{}{true, nil, nil, 2.5, map[string]interface{}{`k`: nil}, map[string]interface{}{`k`: g.Tag(`b`)}, []interface{}{nil}}[g.Intn(7)]
	}
	return m
}

// Key draws a key to look up.
func (g *Gen) Key() string {
	switch g.Intn(12) {
	case 0, 1, 2, 3:
		return `s` + itoa(g.Intn(nS))
	case 4:
		return `i` + itoa(g.Intn(nI))
	case 5, 6:
		return `a` + itoa(g.Intn(nA)) + g.Pick(``, ``, `.0`, `.1`, `.5`)
	case 7, 8, 9:
		return `h` + itoa(g.Intn(nH)) + g.Pick(``, ``, `.p`, `.q`, `.q.p`, `.r`, `.r.0`, `.zz`)
	case 10:
		return g.Pick(`nokey`, `zz.y`, `lookup_options`, `env::HOME`, `env::NONE`)
	}
	return `s0`
}

// MoreKey draws a key of the rarer kinds.
func (g *Gen) MoreKey() string {
	return g.Pick(`b0`, `b0`, `b0.x`, `b0.0`, `b0.1.0`, `ns::k`, `h0.'x.y'`, `h1."x.y"`, `h0.'1'`, `h1."1"`, `h0.'1'.p`, `h1.q.'1'.r`, `a0.'0'`, `h0.'q'.p`, `h1."q".'x.y'`, `'h0'.q`, `'a0'.0`, `'h0.q'`, `'h0.q'`, `"h0.q".r`, `'7'`, `"s0's"`, `'s0.'`, `"s0"`, `b0.'0'`, `h0.q.'x.y'`, `h0.1`, `h0.b`, `h1.q.b`, `s0.p`, `i0.0`, `x`, `m`, `m.k`, `m.l.1`, `w`, `y`, `env::HOME`, `env::OPTS`, `env`, `env.HOME`, `env.OPTS`, `env.NONE`, `a0.-1`, `a0.p`,
		`lookup_options.h0`, `h0.p.`, `.h0`, `h0..p`, `h0.'p`, `0`, `h0.q.q.r.0`,
		`h0.x1z`, `h0.z`, `h1.kk`, `h1.dev`)
}

// More turns some lookups into those of the rarer kinds.
func (g *Gen) More(s *Spec) {
	for _, c := range s.Clients {
		for _, o := range c {
			if g.P(0.25) {
				o.Key = g.MoreKey()
				if s.Kind == `cli` && strings.HasPrefix(o.Key, `lookup_options`) {
					o.Key = `b0`
				}
			}
			if s.Kind == `lib` {
				if g.P(0.5) {
					if o.Scope == nil {
						o.Scope = map[string]interface{}{}
					}
					o.Scope[`m`] = map[string]interface{}{`k`: g.Tag(`m`), `l`: []interface{}{g.Pick(g.Tag(`m`), `web`, `%{role}`), int64(3), `db`}, `n`: map[string]interface{}{`k`: `%{x}` + g.Tag(`m`)}}
					if g.P(0.2) {
						o.Scope[g.Pick(`x`, `env`, `y`)] = g.Pick(``, `x1`)
					}
					o.Scope[`w`] = `<%{` + g.Pick(`env`, `m.k`, `none`, `y`) + `}>`
				}
			}
			if s.Kind == `rest` || !g.P(0.25) {
				continue
			}
			o.Do, o.Keys = g.Pick(`first`, `all`), []string{o.Key}
			for k := 1 + g.Intn(3); k > 0; k-- {
				o.Keys = append(o.Keys, g.Key())
				if s.Kind == `cli` && strings.HasPrefix(o.Keys[len(o.Keys)-1], `lookup_options`) {
					o.Keys = o.Keys[:len(o.Keys)-1]
				}
			}
			if s.Kind == `cli` {
				continue
			}
			over := func() (m map[string]interface{}) {
				for _, k := range append([]string{`zz`}, o.Keys...) {
					if g.P(0.25) {
						if m == nil {
							m = map[string]interface{}{}
						}
						m[k] = g.Tag(`over`)
					}
				}
				return
			}
			if g.P(0.3) {
				o.Over = over()
			}
			if g.P(0.5) {
				o.Dflts = over()
			}
			if o.Do == `first` && g.P(0.3) {
				o.Type = g.Pick(`string`, `int`, `any`)
			}
		}
	}
}

// Vars draws variables.
func (g *Gen) Vars() (vs []string) {
	for _, n := range scopeNames {
		if g.P(0.6) {
			ls := scopeVars[n]
			vs = append(vs, n+g.Pick(`=`, `:`)+ls[g.Intn(len(ls))])
		}
	}
	return
}

// Lookup draws a lookup as a REST request makes it.
func (g *Gen) Lookup() *Op {
	o := &Op{Do: `lookup`, Key: g.Key(), Vars: g.Vars()}
	if g.P(0.3) {
		o.Merge = g.Pick(`first`, `unique`, `hash`, `deep`, `deep`)
	}
	if g.P(0.3) {
		d := g.Pick(g.Tag(`dflt`), g.Tag(`dflt`), ``, `7`)
		o.Default = &d
	}
	if g.P(0.15) {
		o.Type = g.Pick(`string`, `int`, `any`)
	}
	return o
}

// IOFaults draws faults of the file operations on the paths of a universe.
func (g *Gen) IOFaults(u *Universe, n int) (fs []*world.Fault) {
	paths := append(sortedKeys(u.files()), u.config())
	for i := 0; i < n; i++ {
		f := &world.Fault{Path: paths[g.Intn(len(paths))]}
		switch g.Intn(6) {
		case 0:
			if d := path.Dir(f.Path); strings.Contains(d, `/g`) {
				f.Path, f.Op, f.Kind = d, g.Pick(`open`, `readdir`), g.Pick(`EIO`, `EACCES`)
				fs = append(fs, f)
				continue
			}
			f.Op, f.Kind = `stat`, g.Pick(`EIO`, `EACCES`, `ENOMEM`, `ELOOP`)
		case 1, 2:
			f.Op, f.Kind = `open`, g.Pick(`EIO`, `EACCES`, `EMFILE`, `ENFILE`)
		case 3, 4:
			f.Op, f.Kind, f.Off = `read`, g.Pick(`EIO`, `ESTALE`), g.Intn(3)*7
		default:
			f.Op, f.Kind = `read`, `short`
		}
		if f.Path == u.config() && f.Op == `stat` {
			f.Op = `open`
			f.Kind = `EIO`
		}
		if f.Kind != `short` {
			f.Nth = []int{0, 1, 1, 2, -2}[g.Intn(5)]
		}
		dup := false
		for _, o := range fs {
			dup = dup || o.Op == f.Op && o.Path == f.Path
		}
		if !dup {
			fs = append(fs, f)
		}
	}
	return
}
