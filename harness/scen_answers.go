//go:build go1.22

package zzsim

import (
	"fmt"
	"net/url"
	"strings"

	"simkit/world"
)

func init() {
	scenarios[`C10`] = &Scenario{Gen: genC10, Run: runC10,
		Rule: `a case is a REST server over a hierarchy with odd keys and some broken sources, 2-5 concurrent clients with ordinary requests and requests with malformed, contradictory, recursive, deeply nested or huge paths, variables, defaults, types and merge strategies, under I/O faults, slow files and clients that go away, followed by ordinary requests after the faults; non-trivial when a request that is malformed or meets a fault overlaps with another one`}
}

var oddKeys = []string{`a/b`, "n\nl", `sp ace`, `é`, `q?r`, `p%41`, `col::on`, `a&b=c`, `#`, `a+b`}

// randText makes text from the words of the languages that requests contain.
func (g *Gen) randText() string {
	words := []string{`{`, `}`, `[`, `]`, `(`, `)`, `"`, `'`, `,`, `:`, `=`, `=>`, `..`, `1`, `-2`, `3.5`, `a`, `int`, `string`, `map`, `any`, `nil`, `true`, `!`, `|`, `&`, `^`, `<`, `>`, `/`, `/x/`, `sensitive`,
		`binary`, `time`, `func`, `type`, `%{x}`, `%{`, `}`, ` `, "\n", "\x00", "\u2028", `\`, `::`, `data`, `$`, `?`, `...`, `struct`, `error`, `float`, `1e999`, `0x`, `...`, `enum`, `ciEnum`}
	var b strings.Builder
	for i := 1 + g.Intn(10); i > 0; i-- {
		b.WriteString(g.Pick(words...))
	}
	return b.String()
}

// hostile draws a request as no well-meaning client makes it.
func (g *Gen) hostile() *Op {
	o := g.Lookup()
	o.Do = `hostile`
	q := url.QueryEscape
	key := url.PathEscape(o.Key)
	t := o.Target()
	sep := `?`
	if strings.Contains(t, `?`) {
		sep = `&`
	}
	switch g.Intn(16) {
	case 0:
		o.Path = g.Pick(`/`, `/lookup`, `/other/x`, `//lookup/s0`, `/lookup/../s0`, `/lookup/./s0`, `/lookup//s0`, `/lookupx/s0`, `/LOOKUP/s0`, `*`, `/lookup/s0/`, `http://other/lookup/s0`)
	case 1:
		o.Path = `/lookup/` + g.Pick(`%zz`, `%`, `%00`, `%0a`, `%0A%0A`, `%ff%fe`, `%2e%2e`, `%2F`, `a%2F..%2Fb`)
	case 2:
		o.Path = `/lookup/` + url.PathEscape(g.Pick(``, `.`, `..`, `a..b`, `.a`, `a.`, `0`, `-1`, `0.a`, `'`, `"`, `'a.b'`, `"a.b".c`, `'a`, `a.'b`, `a'b'`, `::`, `::a`, `a::`, `h0.'p'`, `h0."q".p`, `a0.-1`, `a0.99999999999999999999`, `lookup_options`, `lookup_options.s0`, ` s0`, `s0 `))
	case 3:
		o.Path = `/lookup/` + url.PathEscape(g.randText())
	case 4, 5:
		o.Path = t + sep + `default=` + q(g.randText())
		if g.P(0.7) {
			o.Path = `/lookup/nokey?default=` + q(g.Pick(`{`, `[`, `{`, ``)+g.randText()+g.Pick(`}`, `]`, `}`, ``))
		}
	case 6, 7:
		o.Path = `/lookup/` + key + `?type=` + q(g.randText())
	case 8:
		o.Path = `/lookup/` + key + `?type=` + q(g.Pick(`map[string]int`, `[]string`, `nil`, `bool`, `float`, `binary`, `time`, `sensitive`, `{a:int}`, `"x"`, `/x/`, `func(int)int`, `struct`, `x=string`, `data`, `richdata`, `0..3`, `string[1,3]`, `!int`, `error`, `type[int]`))
	case 9, 10:
		o.Path = t
		for k := 1 + g.Intn(3); k > 0; k-- {
			o.Path += sep + `var=` + q(g.Pick(scopeNames...)+g.Pick(`=`, `:`, ``, `==`, `::`, ` = `)+g.Pick(g.randText(), `{`+g.randText()+`}`, `%{x}`, `%{y}`, `%{env}`, `{a:1}`, `[1,2]`, `"q"`, `'q'`, `"q`, ``, `%{lookup('s0')}`))
			sep = `&`
		}
	case 11:
		o.Path = t + sep + `merge=` + q(g.Pick(`nosuch`, `Deep`, ``, `deep `, `{strategy:deep}`, g.randText()))
	case 12:
		o.Path = t + sep + g.Pick(`default`, `default=&default=x`, `var`, `var=`, `type=&type=int`, `%zz=1`, `default=%zz`, `a;b`, `;`, `&&&`, `=`, `merge`, `var=x%zz`, `render-as=yaml`, `explain=true`, `config=/etc/passwd`, `VAR=x=1`)
	case 13:
		// long and deep
		n := []int{50, 500, 5000}[g.Intn(3)]
		if g.P(0.15) {
			n = []int{60000, 200000, 1040000}[g.Intn(3)]
		}
		o.Path, o.Val, o.N = g.Pick(`/lookup/nokey?default=*`, `/lookup/s0?var=x=*`, `/lookup/s0?type=*`, `/lookup/s*`), g.Pick(`{`, `[`, `(`, `{a:`, `{1,`, `{[`, `map[`, `.a`, `x`, `%25{`, `%25{x}`, `9`, `!(`, `"`), n
		if strings.HasPrefix(o.Path, `/lookup/s*`) {
			o.Val = g.Pick(`.a`, `9`, `x`, `'`, `.0`)
			o.N = n % 29990
		}
	case 14:
		o.Path = t + sep + `var=` + q(`x=%{y}`) + `&var=` + q(`y=`+g.Pick(`%{x}`, `%{y}`, `%{env}`)) + `&var=` + q(`env=%{x}`)
	default:
		if g.P(0.05) {
			// every variable refers to the next one twice
			o.Do = `blowup`
			n := 9 + g.Intn(3)
			o.Path = `/lookup/` + url.PathEscape(g.Pick(oddKeys...)) + `?var=x=%25{v0}`
			for i := 0; i < n; i++ {
				o.Path += fmt.Sprintf(`&var=v%d=%%25{v%d}%%25{v%d}`, i, i+1, i+1)
			}
			o.Path += fmt.Sprintf(`&var=v%d=0123456789`, n)
			return o
		}
		vs := []string{}
		for i := 0; i < 1+g.Intn(60); i++ {
			vs = append(vs, fmt.Sprintf(`var=v%d=%%25{v%d}`, i, i+1))
		}
		o.Path = `/lookup/` + key + `?var=x=%25{v0}&` + strings.Join(vs, `&`)
	}
	return o
}

func genC10(g *Gen) *Spec {
	s := &Spec{Kind: `rest`, Policy: g.Policy(), MaxSteps: 4000000, N: map[string]int{`cyc`: 1}}
	s.U = g.Universe(uopt{interp: true, options: true, mapped: true, broken: g.P(0.3)})
	odd := &DataFile{Data: map[string]interface{}{}}
	for _, k := range oddKeys {
		odd.Data[k] = g.Tag(`odd`) + g.Pick(``, ` %{x}`)
	}
	s.U.Files[`odd.json`] = odd
	// values that have no JSON, or that are nothing
	bad := &DataFile{Data: map[string]interface{}{`inf0`: infinite, `inf1`: []interface{}{g.Tag(`v`), map[string]interface{}{`a`: 1, `b`: infinite}}, `nil0`: nil, `nil1`: map[string]interface{}{`a`: nil}}}
	for i := g.Intn(60); i > 0; i-- {
		bad.Data[`inf1`] = append(bad.Data[`inf1`].([]interface{}), g.Tag(`filler`))
	}
	s.U.Files[`bad.yaml`] = bad
	s.U.Entries = append(s.U.Entries, &Entry{Name: `bad`, Path: `bad.yaml`})
	s.U.Entries = append(s.U.Entries, &Entry{Name: `odd`, Path: `odd.json`, Kind: `data_hash`, Fn: `json_data`})
	s.Env = map[string]string{`HOME`: `/root`}
	for i := g.Intn(5); i > 0; i-- {
		s.Args = append(s.Args, `--var`, g.Pick(scopeNames...)+`=`+g.Tag(`sv`))
	}
	for i := 2 + g.Intn(4); i > 0; i-- {
		var ops []*Op
		for k := 1 + g.Intn(3); k > 0; k-- {
			o := g.Lookup()
			switch {
			case g.P(0.5):
				o = g.hostile()
			case g.P(0.3):
				o.Key = g.Pick(oddKeys...)
			case g.P(0.15):
				o.Key = g.Pick(`inf0`, `inf1`, `inf1.0`, `inf1.1`, `inf1.1.b`, `nil0`, `nil1`, `nil1.a`, `nil0.x`)
			}
			ops = append(ops, o)
		}
		s.Clients = append(s.Clients, ops)
	}
	if g.P(0.4) {
		s.Faults = g.IOFaults(s.U, 1+g.Intn(2))
	}
	for k := g.Intn(3); k > 0; k-- {
		s.Faults = append(s.Faults, &world.Fault{Op: g.Pick(`open`, `read`, `answer`), Nth: []int{0, 1 + g.Intn(8)}[g.Intn(2)], Kind: `slow`, Ms: 1 + g.Intn(4)})
	}
	if g.P(0.1) {
		s.Faults = append(s.Faults, &world.Fault{Op: g.Pick(`open`, `read`), Nth: 1 + g.Intn(12), Kind: `slow`, Ms: g.Intn(40000)})
	}
	if g.P(0.15) {
		s.Faults = append(s.Faults, &world.Fault{Op: `answer`, Nth: 1 + g.Intn(4), Kind: `EPIPE`})
	}
	return s
}

// wellFormed checks what holds for every answer.
func (x *Exec) wellFormed(d *Done) {
	o, r := d.Op, d.Resp
	if r == nil || r.Gone {
		return
	}
	what := d.Op.id()
	if len(what) > 300 {
		what = what[:300] + `...`
	}
	fail := func(f string, a ...interface{}) {
		x.Fail(`answer`, `%s: %s (code %d, type %q, body %.200q)`, what, fmt.Sprintf(f, a...), r.Code, r.Type, r.Body)
	}
	if r.Panic != `` {
		fail(`no answer, the handler panics: %s`, r.Panic)
		return
	}
	if r.Answers != 1 {
		fail(`%d answers`, r.Answers)
		return
	}
	if r.Task == nil {
		return // answered by net/http itself
	}
	path := o.Target()
	if len(r.Body) > 4096+20*len(path) {
		why := ``
		if o.Do == `blowup` {
			why = ` whose variables refer to each other twice`
		}
		x.Fail(`blowup`, `a request of %d bytes%s gives an answer of %d bytes`, len(path), why, len(r.Body))
		return
	}
	if i := strings.IndexByte(path, '?'); i >= 0 {
		path = path[:i]
	}
	if !strings.HasPrefix(path, `/lookup/`) || strings.Contains(path, `//`) || strings.Contains(path, `/.`) {
		if r.Code != 404 && r.Code/100 != 3 && o.Path == `` {
			fail(`neither found nor redirected`)
		}
		if r.Code != 200 {
			return
		}
	}
	switch r.Code {
	case 200:
		if _, ok := canonJSON(r.Body); !ok {
			fail(`the body is not JSON`)
		}
		if !strings.HasPrefix(r.Type, `application/json`) {
			fail(`the type is not JSON`)
		}
	case 404:
		if o.Default != nil && o.Path == `` {
			fail(`not found although there is a default`)
		}
		if r.Body == `` {
			fail(`no body`)
		}
	case 500:
		if strings.TrimSpace(r.Body) == `` {
			fail(`an error that does not say what is wrong`)
		}
	default:
		if r.Code/100 != 3 || o.Path == `` {
			fail(`neither 200, 404 nor 500`)
		}
	}
}

func runC10(r *Run) {
	exp := alone(r, false)
	if r.Stop() {
		return
	}
	s := r.Spec
	hard := false
	for _, f := range s.Faults {
		hard = hard || f.Op != `answer` && f.Kind != `slow`
	}
	r.Main(func(x *Exec) {
		x.Install(true)
		var ds []*Done
		x.Settled = func() {
			x.Do(&Event{Do: `clear-faults`})
			done := map[string]bool{}
			for _, d := range ds {
				if id := d.Op.id(); !done[id] && !x.S.Failed() {
					done[id] = true
					p := x.srv.Get(d.Op.Target())
					if out := p.Outcome(); !out.Same(exp[id]) || out.Err != exp[id].Err {
						x.Fail(`trace`, `after all other requests and once faults have stopped, %s gives %s instead of %s`, id, out, exp[id])
					}
				}
			}
			if ls := x.S.Live(); len(ls) > 1 {
				x.Fail(`trace`, `after the requests there are still the tasks %v`, ls)
			}
			if n := len(x.W.OpenFiles); n > 0 {
				x.Fail(`trace`, `%d files are still open after the requests`, n)
			}
		}
		ok := x.Drive(func(d *Done) {
			for _, o := range ds {
				if o.Client != d.Client && o.From < d.To && d.From < o.To && (o.Op.Path != `` || d.Op.Path != `` || hard) {
					r.A.Nontriv = true
				}
			}
			ds = append(ds, d)
			x.wellFormed(d)
			if d.Resp != nil && d.Resp.Gone {
				return
			}
			e := exp[d.Op.id()]
			if d.Out.Same(e) && (hard || d.Out.Err == e.Err) || hard && d.Out.Status == `error` {
				return
			}
			x.Fail(`wrong`, `%s gives %s, but %s alone`, d.Op.id(), d.Out, e)
		})
		if !ok {
			x.Fail(`stall`, `requests do not end: %s`, x.S.Blocked())
		}
	})
}
