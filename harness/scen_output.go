//go:build go1.22

package zzsim

import (
	"bytes"
	"encoding/base64"
	"encoding/json"
	"fmt"
	"io"
	"strings"
	"time"

	"github.com/lyraproj/dgo/dgo"
	"github.com/lyraproj/dgo/vf"
	"github.com/lyraproj/hiera/api"
	"github.com/lyraproj/hiera/cli"
	"github.com/lyraproj/hiera/hiera"
	"github.com/lyraproj/hiera/zzlookup"
	"gopkg.in/yaml.v3"
	"simkit/facade/simos"
	"simkit/simrt"
	"simkit/world"
)

func init() {
	scenarios[`C13`] = &Scenario{Gen: genC13, Run: runC13, Shrink: shrinkC13,
		Rule: `a case is a hierarchy with 1-3 lookups of one or more keys, plain, with --all or explained, rendered as yaml, json, text or binary through the program's main function, the command, LookupAndRender or Render, each to an output of its own that is full after any number of bytes or whose n-th write fails; non-trivial when a write fault fired`}
}

var renderings = []string{``, `yaml`, `json`, `s`, `binary`}

func genC13(g *Gen) *Spec {
	s := &Spec{Kind: g.Pick(`main`, `main`, `cmd`, `lib`, `lib`), Policy: g.Policy(), MaxSteps: 6000000}
	s.U = g.Universe(uopt{interp: g.P(0.3), options: g.P(0.3), pcore: s.Kind != `lib`})
	if s.Kind == `lib` {
		s.Top = `mux`
	}
	s.Env = map[string]string{`HOME`: `/root`}
	// values that are awkward to render
	f := s.U.Files[`f0.yaml`]
	s.U.Entries = append(s.U.Entries, &Entry{Name: `odd`, Path: `odd.yaml`})
	f = &DataFile{Data: map[string]interface{}{
		`bin`:  base64.StdEncoding.EncodeToString([]byte(g.Tag(`bytes`) + "\x00\xff\n")),
		`nil`:  nil,
		`ml`:   "first\nsecond\n\n  third " + g.Tag(`v`),
		`sp`:   ` lead: "q" '#` + g.Tag(`v`),
		`uni`:  `日本 ` + g.Tag(`v`) + "\u2028\u0007",
		`e`:    ``,
		`em`:   map[string]interface{}{},
		`ea`:   []interface{}{},
		`t`:    true,
		`long`: strings.Repeat(g.Tag(`w`)+` `, 40+g.Intn(400)),
		`big`:  g.nested(3)}}
	s.U.Files[`odd.yaml`] = f
	key := func() string {
		if g.P(0.6) {
			return g.Pick(`bin`, `nil`, `ml`, `sp`, `uni`, `e`, `em`, `ea`, `t`, `long`, `big`, `big.k0`)
		}
		return g.Key()
	}
	n := 1
	if s.Kind == `lib` {
		n = 1 + g.Intn(3)
	}
	for i := 0; i < n; i++ {
		o := &Op{Do: `lookup`, Key: key(), Vars: g.Vars()}
		for strings.HasPrefix(o.Key, `lookup_options`) {
			o.Key = key()
		}
		o.Val = g.Pick(renderings...)
		if g.P(0.03) {
			o.Val = `nonsense`
		}
		switch k := g.Intn(10); {
		case k < 2:
			o.Do = `all`
			for j := g.Intn(4); j > 0; j-- {
				o.Keys = append(o.Keys, key())
			}
		case k == 2:
			o.Keys = append(o.Keys, key())
		}
		if o.Do == `lookup` && g.P(0.25) {
			o.Explain = g.Pick(`data`, `options`, `both`)
			o.Val = g.Pick(``, `s`, `s`, `json`, `yaml`)
		}
		if g.P(0.2) {
			d := g.Tag(`dflt`)
			o.Default = &d
		}
		if g.P(0.2) {
			o.Merge = g.Pick(`first`, `deep`, `unique`)
		}
		s.Clients = append(s.Clients, []*Op{o})
		if g.P(0.8) {
			f := &world.Fault{Op: `write`, Path: s.output(i), Kind: g.Pick(`ENOSPC`, `EIO`)}
			if s.Kind != `main` && g.P(0.3) {
				f.Kind = `EPIPE`
			}
			if g.P(0.6) {
				f.Off = []int{1, 2 + g.Intn(8), 1 + g.Intn(40), 1 + g.Intn(400), 4096}[g.Intn(5)]
			} else {
				f.Nth = []int{0, 1, 1, 2, 3, 1 + g.Intn(12), -2}[g.Intn(7)]
				if g.P(0.4) {
					f.Ms = 1 + g.Intn(6) // so many bytes of that write are accepted
				}
			}
			s.Faults = append(s.Faults, f)
		}
	}
	return s
}

// nested draws a value of some depth.
func (g *Gen) nested(depth int) interface{} {
	if depth == 0 || g.P(0.2) {
		return []interface{}{g.Tag(`v`), int64(g.Intn(1000)) - 500, g.P(0.5), nil, `x: y`}[g.Intn(5)]
	}
	if g.P(0.4) {
		a := []interface{}{}
		for k := g.Intn(5); k > 0; k-- {
			a = append(a, g.nested(depth-1))
		}
		return a
	}
	m := map[string]interface{}{}
	for k := g.Intn(5); k >= 0; k-- {
		m[`k`+itoa(k)] = g.nested(depth - 1)
	}
	return m
}

func (s *Spec) output(i int) string {
	if s.Kind == `main` {
		return `/dev/stdout`
	}
	return `out` + itoa(i)
}

// rendered is what an operation wrote and how it ended.
type rendered struct {
	op     *Op
	out    string
	failed bool
	err    string
	found  bool
}

func (o *Op) keys() []string { return append([]string{o.Key}, o.Keys...) }

func (o *Op) flags(s *Spec) []string {
	args := []string{`--config`, s.U.config()}
	add := func(f, v string) {
		if v != `` {
			args = append(args, f, v)
		}
	}
	add(`--render-as`, o.Val)
	add(`--merge`, o.Merge)
	switch o.Explain {
	case `data`:
		args = append(args, `--explain`)
	case `options`:
		args = append(args, `--explain-options`)
	case `both`:
		args = append(args, `--explain`, `--explain-options`)
	}
	if o.Default != nil {
		args = append(args, `--default`, *o.Default)
	}
	if o.Do == `all` {
		args = append(args, `--all`)
	}
	for _, v := range o.Vars {
		args = append(args, `--var`, v)
	}
	return append(args, o.keys()...)
}

// render performs the operations of the spec, all at the same time, each with its own output.
func (x *Exec) render() []*rendered {
	s := x.Spec
	var rs []*rendered
	switch s.Kind {
	case `main`, `cmd`:
		o := s.Clients[0][0]
		r := &rendered{op: o, found: true}
		rs = append(rs, r)
		// what a command leaves behind is not reset in this process
		_, _ = Caught(func() { _, _ = cli.ExecuteLookup(`--version`) })
		out := &world.Writer{Name: s.output(0)}
		x.W.Stdout, x.W.Stderr = nil, nil
		t := simrt.GoSys(s.Kind, func() {
			if s.Kind == `main` {
				simos.Args = append([]string{`lookup`}, o.flags(s)...)
				zzlookup.Main()
				return
			}
			cmd := cli.NewCommand()
			cmd.SetOut(out)
			cmd.SetArgs(o.flags(s))
			if err := cmd.Execute(); err != nil {
				r.failed, r.err = true, err.Error()
			}
		})
		if !x.WaitFor(10*time.Minute, t) {
			x.Fail(`stall`, `the lookup does not end: %s`, x.S.Blocked())
		}
		r.out = string(out.Data)
		if s.Kind == `main` {
			r.out = string(x.W.Stdout)
			r.failed = x.W.ExitCode != nil && *x.W.ExitCode != 0
			r.err = string(x.W.Stderr)
		}
	default:
		t := x.Session(nil, func(ss api.Session) {
			var ts []*simrt.Task
			for i, ops := range s.Clients {
				o := ops[0]
				out := &world.Writer{Name: s.output(i)}
				r := &rendered{op: o}
				rs = append(rs, r)
				ts = append(ts, simrt.GoSys(`client`+itoa(i), func() {
					co := &hiera.CommandOptions{Merge: o.Merge, Default: o.Default, Variables: o.Vars, RenderAs: o.Val, LookupAll: o.Do == `all`,
						ExplainData: o.Explain == `data` || o.Explain == `both`, ExplainOptions: o.Explain == `options` || o.Explain == `both`}
					r.err, r.failed = Caught(func() { r.found = hiera.LookupAndRender(ss, co, o.keys(), out) })
					r.out = string(out.Data)
				}))
			}
			if !x.WaitFor(10*time.Minute, ts...) {
				x.Fail(`stall`, `lookups do not end: %s`, x.S.Blocked())
			}
		})
		if !x.WaitFor(12*time.Minute, t) {
			x.Fail(`stall`, `the session does not end: %s`, x.S.Blocked())
		}
	}
	return rs
}

// output is what an operation finds, by the model.
func (m *model) output(o *Op) (v interface{}, out Outcome) {
	out = m.run(func() (interface{}, bool) {
		for _, e := range o.Vars {
			g := varExpr.FindStringSubmatch(e)
			m.scope[strings.TrimSpace(g[1])] = strings.TrimSpace(g[2])
		}
		merge := o.Merge
		if merge == `first` {
			merge = ``
		}
		if o.Do == `all` {
			r := map[string]interface{}{}
			for _, k := range o.keys() {
				if e, ok := m.lookup(k, merge); ok {
					r[k] = e
				}
			}
			v = r
			return r, true
		}
		for _, k := range o.keys() {
			if e, ok := m.lookup(k, merge); ok {
				v = e
				return e, true
			}
		}
		if o.Default != nil {
			v = *o.Default
			return v, true
		}
		return nil, false
	})
	return
}

// sameRendering tells if a text is the complete rendering of a value, exactly once. It is unknown for some texts.
func sameRendering(as, text string, v interface{}) (same, known bool) {
	switch as {
	case `json`:
		d := json.NewDecoder(strings.NewReader(text))
		var w, more interface{}
		if d.Decode(&w) != nil || d.Decode(&more) != io.EOF || !strings.HasSuffix(text, "\n") || strings.HasSuffix(text, "\n\n") {
			return false, true
		}
		return canon(w) == canon(v), true
	case ``, `yaml`:
		if v == nil {
			return strings.TrimSpace(text) == `` || strings.TrimSpace(text) == `null`, true
		}
		d := yaml.NewDecoder(bytes.NewReader([]byte(text)))
		var w, more interface{}
		if d.Decode(&w) != nil || d.Decode(&more) != io.EOF || !strings.HasSuffix(text, "\n") {
			return false, true
		}
		return canon(yamlPlain(w)) == canon(v), true
	case `s`:
		switch v := v.(type) {
		case string:
			return text == v+"\n", true
		case nil:
			return false, false
		case map[string]interface{}, []interface{}:
			// the order of the keys is not that of the model
			var dv dgo.Value
			simrt.Atomically(func() { dv = vf.Value(normalize(v)) })
			return len(text) == len(dv.String())+1 && namesValue(text, canon(v)), true
		}
		return text == fmt.Sprintln(v), true
	case `binary`:
		if s, ok := v.(string); ok {
			bs, err := base64.StdEncoding.DecodeString(s)
			return err == nil && text == string(bs), err == nil
		}
	}
	return false, false
}

// yamlPlain turns what the YAML parser gives into plain data.
func yamlPlain(v interface{}) interface{} {
	switch v := v.(type) {
	case map[string]interface{}:
		for k, e := range v {
			v[k] = yamlPlain(e)
		}
	case map[interface{}]interface{}:
		m := map[string]interface{}{}
		for k, e := range v {
			m[fmt.Sprint(k)] = yamlPlain(e)
		}
		return m
	case []interface{}:
		for i, e := range v {
			v[i] = yamlPlain(e)
		}
	}
	return v
}

func runC13(r *Run) {
	var ref []*rendered
	for _, ops := range r.Spec.Clients {
		one := *r.Spec
		one.Clients = [][]*Op{ops}
		r.Sub(func(x *Exec) {
			x.Spec = &one
			x.Install(false)
			ref = append(ref, x.render()...)
		})
		if r.Stop() {
			return
		}
	}
	for _, e := range ref {
		v, w := modelOf(r.Spec).output(e.op)
		ok := false
		switch {
		case w.Status == `unknown`:
			continue
		case w.Status == `error`:
			ok = e.failed
		case e.op.Explain != ``:
			ok = !e.failed && e.out != `` && (e.op.Explain == `options` || w.Status != `found` || e.op.Default != nil || namesValue(e.out, w.Val))
		case w.Status == `notfound`:
			ok = !e.failed && e.out == `` && (r.Spec.Kind != `lib` || !e.found)
		case e.op.Val == `nonsense`:
			ok = e.failed
		default:
			same, known := sameRendering(e.op.Val, e.out, v)
			ok = !known || same && !e.failed && e.found
		}
		if !ok {
			r.Fail(`rendering`, `without a fault %s gives %q (failed %v %s), which is not the rendering of %s`, e.op.id(), e.out, e.failed, e.err, w)
			return
		}
	}
	fired := false
	r.Main(func(x *Exec) {
		x.Install(true)
		for i, d := range x.render() {
			hit := false
			for _, f := range x.W.Fired {
				hit = hit || f.Path == x.Spec.output(i)
			}
			fired = fired || hit
			e := ref[i]
			switch {
			case e.failed && !d.failed:
				x.Fail(`unreported`, `%s gives %q, but it fails alone with %q`, d.op.id(), d.out, e.err)
			case hit && !d.failed:
				x.Fail(`unreported`, `%s reports success although its output could not be written: it holds %d bytes of %d`, d.op.id(), len(d.out), len(e.out))
			case !hit && d.failed != e.failed:
				x.Fail(`spurious`, `%s fails with %q although nothing was wrong with its output`, d.op.id(), d.err)
			case !hit && !e.failed && (d.out != e.out || d.found != e.found):
				x.Fail(`output`, `%s writes %q instead of %q`, d.op.id(), d.out, e.out)
			}
		}
	})
	r.A.Nontriv = fired
}

func shrinkC13(s *Spec) (out []*Spec) {
	for i, ops := range s.Clients {
		o := ops[0]
		try := func(f func(o *Op)) {
			c := s.Clone()
			f(c.Clients[i][0])
			out = append(out, c)
		}
		if o.Keys != nil {
			try(func(o *Op) { o.Keys = nil })
		}
		if o.Merge != `` {
			try(func(o *Op) { o.Merge = `` })
		}
		if o.Default != nil {
			try(func(o *Op) { o.Default = nil })
		}
		if o.Vars != nil {
			try(func(o *Op) { o.Vars = nil })
		}
		if o.Do == `all` {
			try(func(o *Op) { o.Do = `lookup` })
		}
	}
	return
}
