//go:build go1.22

package zzsim

import (
	"bytes"
	"context"
	"errors"
	"fmt"
	"strings"
	"syscall"
	"time"

	"github.com/lyraproj/hiera/api"
	"github.com/lyraproj/hiera/hiera"
	"simkit/simrt"
	"simkit/world"
)

func init() {
	scenarios[`C05`] = &Scenario{Gen: genC05, Run: runC05,
		Rule: `a case is 1-2 plugins whose first 1-3 processes fail to start in one of 20 ways (bad or no greeting, early exit, exec or pipe error, ignoring signals, flooding stderr, leaving a child behind) before one that starts, with 1-3 concurrent clients and late lookups, through REST, library or command line; non-trivial when a start failed`}
	scenarios[`C06`] = &Scenario{Gen: genC06, Run: runC06,
		Rule: `a case is 2-6 concurrent clients that use the functions of 1-2 plugins for the first time while these start slowly; non-trivial when two lookups overlapped before a plugin had started`}
	scenarios[`C07`] = &Scenario{Gen: genC07, Run: runC07,
		Rule: `a case is 1-2 plugins that answer some calls badly (27 ways) and connections that are refused, delayed or hang, with 1-4 concurrent clients through REST, library or command line; non-trivial when a call went wrong`}
	scenarios[`C08`] = &Scenario{Gen: genC08, Run: runC08,
		Rule: `a case is a session with 1-4 plugins that obey, ignore or are slow to obey signals, have ended before, still write, or leave a child behind, and that ends normally, by a panic, by an error, or with its plugins being stopped twice; non-trivial when a plugin had been started`}
	scenarios[`C09`] = &Scenario{Gen: genC09, Run: runC09,
		Rule: `a case is 1-3 plugins that write lines, floods, long lines and unfinished lines to stderr and stdout, before the greeting, while serving, and right before they exit; non-trivial when something was written to stderr`}
}

// plugins draws plugins and a hierarchy that uses them.
func (g *Gen) plugins(s *Spec, n int, odd bool) {
	s.U = &Universe{Files: map[string]*DataFile{}, Plugins: map[string]*Plugin{}}
	s.Env = map[string]string{}
	if g.P(0.2) {
		s.U.Files[`any.x`] = &DataFile{}
	}
	if g.P(0.3) {
		s.S = map[string]string{`cwd`: g.Pick(`/work`, `/`, `/hiera/plugin`)}
	}
	if s.S == nil {
		s.S = map[string]string{}
	}
	if g.P(0.3) {
		s.S[`tmpdir`] = `/var/tmp`
	}
	if s.Kind == `lib` && g.P(0.4) {
		s.S[`transport`] = g.Pick(`tcp`, `tcp`, `unix`, `pipe`)
		if s.S[`transport`] == `tcp` && g.P(0.3) {
			if s.N == nil {
				s.N = map[string]int{}
			}
			s.N[`nonet`] = 1
		}
		if g.P(0.5) {
			s.S[`sockdir`] = `/run/hiera`
		}
	}
	same := g.P(0.3)
	alike := g.P(0.3)
	plugDir := `/hiera/plugin`
	switch g.Intn(8) {
	case 0:
		s.Env[`HIERA_PLUGINDIR`] = `plugs`
		plugDir = `/hiera/plugs`
	case 1:
		s.U.Defaults = &Entry{PluginDir: `/pd`}
		plugDir = `/pd`
		s.Env[`HIERA_PLUGINDIR`] = `none`
	}
	for i := 0; i < n; i++ {
		x := string(rune('a' + i))
		f := x
		if same {
			f = `f`
		}
		lk, dh, dd := `lk`+f, `dh`+f, `dd`+f
		if odd && g.P(0.15) {
			// functions of different kinds may have the same name
			lk, dh, dd = `any`+f, `any`+f, g.Pick(`any`, `dd`)+f
		} else if odd && g.P(0.15) {
			lk += g.Pick(`::f`, `?x`, `#1`, `%41`, `é`, ` s`)
		}
		pl := &Plugin{Funcs: map[string][]string{`lookup_key`: {lk, `none` + f}, `data_hash`: {dh}, `data_dig`: {dd}}}
		if g.P(0.15) {
			// the plugin has functions of one kind only
			only := g.Pick(`lookup_key`, `lookup_key`, `data_hash`, `data_dig`)
			for _, k := range []string{`lookup_key`, `data_hash`, `data_dig`} {
				if k != only {
					delete(pl.Funcs, k)
				}
			}
		}
		file, dir := `/plug/`+x, ``
		paths := []string{file}
		if alike {
			file = `/plug/` + x + `/same`
			paths = []string{file}
		}
		switch g.Intn(7) {
		case 0, 1:
			file = `p` + x
			paths = []string{plugDir + `/` + file}
		case 2:
			file, dir = `q`, g.Pick(`more/%{none}`, `/lib`)+x
			paths = []string{abs(`/hiera`, strings.Replace(dir, `%{none}`, ``, 1)+`/q`)}
		case 3:
			// the plugin depends on the scope
			file, dir = `q`, `by%{env}`+x
			paths = []string{`/hiera/by` + x + `/q`, `/hiera/bydev` + x + `/q`, `/hiera/byprod` + x + `/q`}
		}
		for _, path := range paths {
			s.U.Plugins[path] = &Plugin{Funcs: pl.Funcs}
		}
		for k := 1 + g.Intn(2); k > 0; k-- {
			e := &Entry{Name: `e` + itoa(len(s.U.Entries)), PluginFile: file, PluginDir: dir, Options: map[string]interface{}{`id`: `%{id}`}}
			switch g.Intn(6) {
			case 0:
				e.Kind, e.Fn = `lookup_key`, `none`+f
			case 1:
				e.Kind, e.Fn = `data_hash`, dh
			case 2:
				e.Kind, e.Fn = `data_dig`, dd
			default:
				e.Kind, e.Fn = `lookup_key`, lk
			}
			if odd && g.P(0.08) {
				e.Fn = g.Pick(`nul`, `arr`) + f + e.Kind
				pl.Funcs[e.Kind] = append(pl.Funcs[e.Kind], e.Fn)
			}
			if g.P(0.1) {
				e.Fn = `gone` + f // the plugin has no such function
			}
			switch g.Intn(6) {
			case 0:
				e.Options[`env`] = `x %{env}`
				e.Options[`l`] = []interface{}{1, g.Pick(`é & ?`, `a+b`, `50%41`, `x#y;z=1`)}
			case 1:
				e.URIs = []string{`http://h/%{env}?a=b`, `u&v`}
			case 2:
				e.Path = `any.x`
			}
			if g.P(0.15) {
				// another name of the same file
				i := strings.LastIndexByte(file, '/') + 1
				e.PluginFile = file[:i] + g.Pick(`./`, `x/../`) + file[i:]
			}
			if g.P(0.1) {
				if strings.HasPrefix(e.Fn, `gone`) {
					e.Fn = lk
				}
				e.PluginFile, e.PluginDir, e.Plug = ``, ``, true
				s.U.Plugins[plugDir+`/`+e.Fn] = &Plugin{Funcs: pl.Funcs}
			}
			s.U.Entries = append(s.U.Entries, e)
		}
	}
	g.shuffle(len(s.U.Entries), func(a, b int) { s.U.Entries[a], s.U.Entries[b] = s.U.Entries[b], s.U.Entries[a] })
	if g.P(0.3) {
		s.U.Files[`low.yaml`] = &DataFile{Data: map[string]interface{}{`p0`: g.Tag(`low`), `nokey`: g.Tag(`low`), `via`: `%{lookup('p1')}/%{lookup('ph.a')}`, `al`: `%{alias('ph')}`}}
		s.U.Entries = append(s.U.Entries, &Entry{Name: `low`, Path: `low.yaml`})
	}
	if s.Kind == `lib` {
		s.Top = g.Pick(``, `mux`)
	}
}

func (g *Gen) pluginOp(s *Spec) *Op {
	g.tag++
	o := &Op{Do: `lookup`, Key: g.Pick(`p0`, `p0`, `p1`, `p2`, `ph`, `ph.a`, `ph.l.1`, `ph.n`, `nokey`, `k5`, `p::x`, g.Pick(`p x`, `p+q`, `p%41`, `p&q=r`, `p?q#r`, `pé"`, "'p.q'", "p;'r.s'")), Vars: []string{`id=op` + itoa(g.tag)}}
	switch {
	case g.P(0.12):
		o.Key = g.Pick(`pn`, `pf`, `pe`, `pu`, `pi`, `pd`, `pl`, `pm`, `pa`)
	case s.U.Files[`low.yaml`] != nil && g.P(0.2):
		o.Key = g.Pick(`via`, `al`, `al.a`)
	case g.P(0.3):
		o.Merge = g.Pick(`unique`, `hash`, `deep`)
	}
	if g.P(0.4) {
		o.Vars = append(o.Vars, `env=`+g.Pick(`dev`, `prod`))
	}
	if g.P(0.15) {
		d := g.Tag(`dflt`)
		o.Default = &d
	}
	return o
}

// opID is the option by which plugins know an operation.
func opID(o *Op) string { return strings.TrimPrefix(o.Vars[0], `id=`) }

func (g *Gen) stderrLines(tag string, n int) (os []*Out) {
	for k := 0; k < n; k++ {
		o := &Out{On: `stderr`, Text: tag + `-` + itoa(k) + ` text`}
		switch g.Intn(8) {
		case 0:
			o.Text += "\n" + tag + `-` + itoa(k) + `b more`
		case 1:
			o.Text += strings.Repeat(`x`, 60000+g.Intn(3)*5536)
		case 2:
			o.Chunk = 1 + g.Intn(5)
		case 3:
			o.Text += "\n"
		}
		o.Text += "\n"
		os = append(os, o)
	}
	return
}

// plugJudge collects what operations and plugins did.
type plugJudge struct {
	x  *Exec
	s  *Spec
	ds []*Done
}

func (x *Exec) drivePlugins() *plugJudge {
	j := &plugJudge{x: x, s: x.Spec}
	if !x.Drive(func(d *Done) { j.ds = append(j.ds, d) }) {
		x.Fail(`stall`, `lookups or the end of the session do not come to an end: %s`, x.S.Blocked())
		return nil
	}
	for _, d := range j.ds {
		switch d.Out.Status {
		case `found`, `notfound`, `error`:
		default:
			x.Fail(`answer`, `%s gives %s`, d.Op.id(), d.Out)
			return nil
		}
	}
	return j
}

// expect is what an operation gives when all plugins are well.
func (j *plugJudge) expect(o *Op) Outcome { return modelOf(j.s).op(j.s, o) }

// value checks an outcome that is not to be an error.
func (j *plugJudge) value(d *Done) bool {
	if w := j.expect(d.Op); w.Status != `unknown` && !d.Out.Same(w) {
		j.x.Fail(`value`, `%s gives %s instead of %s`, d.Op.id(), short(d.Out), short(w))
		return false
	}
	return true
}

func short(o Outcome) string {
	t := o.String()
	if len(t) > 600 {
		t = t[:300] + `...` + t[len(t)-200:]
	}
	return t
}

// gone checks that nothing is left of plugins once everything has ended.
func (j *plugJudge) gone(wait time.Duration) bool {
	simrt.Sleep(wait)
	x := j.x
	if j.s.Kind == `rest` && j.s.N[`stop`] == 0 {
		return true
	}
	if j.s.S[`end`] == `exit` {
		for _, r := range x.Plug {
			if !r.P.Exited {
				x.Fail(`process`, `%s after the program has ended: %s`, wait, r.P)
				return false
			}
		}
		return true
	}
	if n := x.S.LiveTasks(); n > 0 {
		x.Fail(`leak`, `%s after the session has ended there are still %s`, wait, strings.Join(x.S.Live(), `, `))
		return false
	}
	for _, r := range x.Plug {
		if !r.P.Exited || !r.P.Reaped {
			x.Fail(`process`, `%s after the session has ended: %s`, wait, r.P)
			return false
		}
		if !r.P.Stdout.Closed() || !r.P.Stderr.Closed() {
			x.Fail(`leak`, `a pipe to %s is still open %s after the session has ended`, r.P, wait)
			return false
		}
	}
	return true
}

var badGreets = []string{`garbage`, `html`, `partial`, `exit`, `partial-exit`, `close`, `array`, `null`, `badversion`, `strversion`, `noversion`, `noaddr`, `numaddr`, `nofuncs`, `funcsarray`, `funcnames`, `funcnums`, `funcnull`, `none`}

func genC05(g *Gen) *Spec {
	s := &Spec{Kind: g.Pick(`lib`, `lib`, `rest`, `cli`), Policy: g.Policy(), MaxSteps: 6000000}
	g.plugins(s, 1+g.Intn(2), false)
	for _, p := range sortedKeys(s.U.Plugins) {
		pl := s.U.Plugins[p]
		for k := g.Intn(4); k > 0; k-- {
			b := &StartB{Greet: g.Pick(badGreets...), Pieces: g.P(0.15), ExitStatus: g.Intn(3)}
			switch g.Intn(8) {
			case 0:
				b.Greet, b.GreetMs = ``, 3500+g.Intn(3)*30000
			case 1:
				b.GreetMs = g.Intn(2500)
			case 2:
				b.Sig = `ignore`
			case 3:
				b.Output = g.stderrLines(`x`, 1+g.Intn(3))
				for _, o := range b.Output {
					o.Early = true
				}
			case 4:
				b.HoldMs = 1000 * (1 + g.Intn(60))
			}
			pl.Starts = append(pl.Starts, b)
		}
		pl.Starts = append(pl.Starts, &StartB{GreetMs: g.Intn(3) * 1000, Pieces: g.P(0.2)})
		if g.P(0.25) {
			f := &world.Fault{Op: `exec`, Path: p, Nth: 1 + g.Intn(3), Kind: g.Pick(`ENOENT`, `EACCES`, `EMFILE`, `ENOMEM`, `ENOEXEC`, `ETXTBSY`, `EAGAIN`)}
			if g.P(0.3) {
				f.Op, f.Path, f.Kind = `pipe`, p+`:`+g.Pick(`stdout`, `stderr`), `EMFILE`
			}
			s.Faults = append(s.Faults, f)
		}
	}
	n := 1 + g.Intn(3)
	if s.Kind == `cli` {
		n = 1
	}
	for i := 0; i < n; i++ {
		var ops []*Op
		for k := 1 + g.Intn(3); k > 0; k-- {
			ops = append(ops, g.pluginOp(s))
			if g.P(0.3) {
				ops[len(ops)-1].DelayMs = g.Intn(4000)
			}
		}
		last := g.pluginOp(s)
		last.DelayMs = 20000
		s.Clients = append(s.Clients, append(ops, last))
	}
	return s
}

// failedStarts lists the plugin processes that could not be used.
func (x *Exec) failedStarts() (ls []*PlugRec) {
	for _, r := range x.Plug {
		if !r.Greeted {
			ls = append(ls, r)
		}
	}
	return
}

func runC05(r *Run) {
	r.Main(func(x *Exec) {
		x.Install(true)
		x.Settled = func() {
			simrt.Sleep(6 * time.Second)
			for _, f := range x.failedStarts() {
				switch {
				case !f.P.Exited || !f.P.Reaped:
					x.Fail(`process`, `%s could not be started, but some seconds later: %s`, f.Path, f.P)
				case !f.P.Stdout.Closed() || !f.P.Stderr.Closed():
					x.Fail(`leak`, `%s could not be started, but a pipe to it is still open some seconds later`, f.Path)
				}
			}
		}
		j := x.drivePlugins()
		if j == nil {
			return
		}
		failed := x.failedStarts()
		r.A.Nontriv = len(failed) > 0 || len(x.W.Fired) > 0
		for _, d := range j.ds {
			excused := x.fired(d.From, d.To)
			for _, f := range failed {
				if f.P.Seq > d.From && f.P.Seq < d.To || f.P.Seq < d.From && (f.P.EndSeq == 0 || f.P.EndSeq > d.From) {
					excused = true
				}
				if f.P.By != d.Task || f.P.Seq < d.From || f.P.Seq > d.To {
					continue
				}
				if d.Out.Status != `error` {
					x.Fail(`unreported`, `%s gives %s although %s (%s) did not start`, d.Op.id(), short(d.Out), f.P, f.B.Greet)
					return
				}
				if d.Ended > f.P.StartedAt+5*time.Second {
					x.Fail(`late`, `%s fails %s after the start of %s (%s)`, d.Op.id(), d.Ended-f.P.StartedAt, f.P, f.B.Greet)
					return
				}
			}
			if d.Out.Status == `error` {
				if w := j.expect(d.Op); !excused && w.Status != `error` && w.Status != `unknown` {
					x.Fail(`spurious`, `%s gives %s although no plugin failed to start`, d.Op.id(), short(d.Out))
					return
				}
			} else if !j.value(d) {
				return
			}
		}
		for _, f := range failed {
			if f.P.Reaped && f.P.ReapedAt-f.P.StartedAt > 9*time.Second {
				x.Fail(`process`, `%s did not start, but it was reaped only %s later`, f.P, f.P.ReapedAt-f.P.StartedAt)
				return
			}
		}
		j.gone(8 * time.Second)
	})
}

func genC06(g *Gen) *Spec {
	s := &Spec{Kind: g.Pick(`lib`, `lib`, `rest`), Policy: g.Policy(), MaxSteps: 6000000}
	g.plugins(s, 1+g.Intn(2), false)
	for _, p := range sortedKeys(s.U.Plugins) {
		b := &StartB{GreetMs: g.Intn(3) * g.Intn(1200), Pieces: g.P(0.3)}
		if g.P(0.2) {
			b.Output = g.stderrLines(`x`, 2)
			b.Output[0].Early = g.P(0.5)
		}
		for k := g.Intn(3); k > 0; k-- {
			b.Calls = append(b.Calls, &Call{Nth: 1 + g.Intn(8), Do: g.Pick(`slow`, `slow`, `chunked`, `drip`), Ms: 1 + g.Intn(5)})
		}
		s.U.Plugins[p].Starts = []*StartB{b}
	}
	for i := 2 + g.Intn(5); i > 0; i-- {
		var ops []*Op
		for k := 1 + g.Intn(3); k > 0; k-- {
			o := g.pluginOp(s)
			if o.Key == `pl` {
				o.Key = `p0`
			}
			if g.P(0.3) {
				o.DelayMs = g.Intn(2600)
			}
			ops = append(ops, o)
		}
		s.Clients = append(s.Clients, ops)
	}
	return s
}

func runC06(r *Run) {
	r.Main(func(x *Exec) {
		x.Install(true)
		j := x.drivePlugins()
		if j == nil {
			return
		}
		ready := map[string]time.Duration{}
		starts := map[string]int{}
		for _, p := range x.Plug {
			starts[p.Path]++
			if p.Others > 0 || starts[p.Path] > 1 {
				x.Fail(`processes`, `%d processes of %s are started in one session (%s)`, starts[p.Path], p.Path, x.W.ProcState())
				return
			}
			if len(p.Calls) > 0 {
				ready[p.Path] = p.Calls[0].At
			}
		}
		early := 0
		for _, d := range j.ds {
			if !j.value(d) {
				return
			}
			for _, t := range ready {
				if d.Started < t && d.Ended >= t {
					early++
				}
			}
		}
		r.A.Nontriv = early > 1
		j.gone(8 * time.Second)
	})
}

var badCalls = []string{`reset`, `close`, `hang`, `hangbody`, `truncate`, `truncreset`, `cuthead`, `chunkcut`, `500`, `503`, `400`, `204`, `206`, `201`, `302`, `410`, `empty`, `badjson`, `notjson`, `garbage`, `500trunc`, `crash`, `crashbody`, `trailing`, `two`, `500empty`, `400json`}

func genC07(g *Gen) *Spec {
	s := &Spec{Kind: g.Pick(`lib`, `lib`, `rest`, `cli`), Policy: g.Policy(), MaxSteps: 6000000}
	g.plugins(s, 1+g.Intn(2), true)
	for _, p := range sortedKeys(s.U.Plugins) {
		b := &StartB{}
		for k := g.Intn(4); k > 0; k-- {
			c := &Call{Nth: 1 + g.Intn(8), Do: g.Pick(badCalls...)}
			switch g.Intn(6) {
			case 0:
				c.Do, c.Ms = `slow`, []int{100, 3000, 4000, 6000, 9000}[g.Intn(5)]
			case 1:
				c.Do, c.Ms = `drip`, []int{1, 10, 100, 190, 300, 500}[g.Intn(4)]
			case 2:
				c.Do = g.Pick(`chunked`, `eofbody`)
			}
			if g.P(0.05) {
				c.Nth = 0
			}
			b.Calls = append(b.Calls, c)
		}
		s.U.Plugins[p].Starts = []*StartB{b}
	}
	n := 1 + g.Intn(4)
	if s.Kind == `cli` {
		n = 1
	}
	for i := 0; i < n; i++ {
		var ops []*Op
		for k := 1 + g.Intn(3); k > 0; k-- {
			ops = append(ops, g.pluginOp(s))
			if g.P(0.2) {
				ops[len(ops)-1].DelayMs = g.Intn(4000)
			}
		}
		s.Clients = append(s.Clients, ops)
	}
	for k := g.Intn(3) * g.Intn(2); k > 0; k-- {
		f := &NetFault{N: 1 + g.Intn(10)}
		switch g.Intn(4) {
		case 0:
			f.Hang = true
		case 1:
			f.Refuse = true
		case 2:
			f.Refuse, f.DelayMs = true, g.Intn(7000)
		default:
			f.DelayMs = []int{50, 2000, 4000, 6000, 8000}[g.Intn(5)]
		}
		s.Net = append(s.Net, f)
	}
	return s
}

// verdict tells what a call must lead to: value, error or any of these.
func (c *CallRec) verdict(b *StartB) string {
	if c.Did == `` {
		return `value`
	}
	body := c.Code == 200
	any := func(bad bool) string {
		if bad {
			return `error`
		}
		return `any`
	}
	switch c.Did {
	case `chunked`, `eofbody`:
		return `value`
	case `slow`, `drip`:
		t := 0
		for _, k := range b.Calls {
			if k.Do == c.Did && k.Ms > t {
				t = k.Ms
			}
		}
		if c.Did == `drip` {
			t *= 21
		}
		switch {
		case t < 4400:
			return `value`
		case t > 5600 && len(b.Calls) == 1:
			return any(body || c.Did == `slow`)
		}
		return `any`
	case `hangbody`, `truncate`, `truncreset`, `crashbody`:
		// 'not found' has been told
		return any(body)
	}
	return `error`
}

func runC07(r *Run) {
	r.Main(func(x *Exec) {
		x.Install(true)
		x.Settled = func() {
			simrt.Sleep(10 * time.Second)
			if n := x.W.OpenConns(); n > 0 {
				x.Fail(`connection`, `%d connections to plugins are still open long after the last call`, n)
			}
		}
		j := x.drivePlugins()
		if j == nil {
			return
		}
		calls := map[string][]*CallRec{}
		of := map[*CallRec]*PlugRec{}
		died := -1
		for _, p := range x.Plug {
			for _, c := range p.Calls {
				calls[c.ID] = append(calls[c.ID], c)
				of[c] = p
			}
			if p.P.Died() && (died < 0 || p.P.EndSeq < died) {
				died = p.P.EndSeq
			}
		}
		wrong := 0
		for _, d := range j.ds {
			bad, any := ``, false
			slow := 0
			for _, c := range calls[opID(d.Op)] {
				switch c.verdict(of[c].B) {
				case `error`:
					bad = c.Did
				case `any`:
					any = true
				}
				if c.Did != `` {
					slow++
					wrong++
				}
			}
			for _, f := range x.W.Fired {
				if f.Op == `dial` && f.Seq > d.From && f.Seq < d.To {
					any = true
					slow++
				}
			}
			for _, f := range r.Spec.Net {
				if f.DelayMs > 0 {
					slow++
				}
				any = any || f.DelayMs > 4400 || f.DelayMs > 300 && slow > 1
			}
			if died >= 0 && died < d.To {
				any = true
			}
			switch {
			case bad != `` && d.Out.Status != `error`:
				x.Fail(`badcall`, `%s gives %s although a call that it made was answered with %s`, d.Op.id(), short(d.Out), bad)
				return
			case d.Out.Status != `error`:
				if !j.value(d) {
					return
				}
			case bad == `` && !any:
				if w := j.expect(d.Op); w.Status != `error` && w.Status != `unknown` {
					x.Fail(`spurious`, `%s gives %s although all of its calls were answered well`, d.Op.id(), short(d.Out))
					return
				}
			}
			if max := time.Duration(slow)*5200*time.Millisecond + time.Second; d.Ended-d.Started > max {
				x.Fail(`late`, `%s takes %s`, d.Op.id(), d.Ended-d.Started)
				return
			}
		}
		for _, c := range x.W.Conns {
			if end := c.ClosedAt; end-c.OpenedAt > 5500*time.Millisecond {
				x.Fail(`connection`, `connection %d to a plugin was open for %s`, c.ID, end-c.OpenedAt)
				return
			}
		}
		r.A.Nontriv = wrong > 0 || len(x.W.Fired) > 0
		j.gone(9 * time.Second)
	})
}

func genC08(g *Gen) *Spec {
	s := &Spec{Kind: `lib`, Policy: g.Policy(), MaxSteps: 6000000, S: map[string]string{}, N: map[string]int{}}
	s.S[`end`] = g.Pick(`normal`, `panic`, `error`, `error-panic`, `twice`, `both`, `rest`, `cli`, `exit`)
	switch s.S[`end`] {
	case `rest`, `cli`:
		s.Kind = s.S[`end`]
		s.N[`stop`] = 1
	case `exit`:
		s.Kind = `cli`
	}
	g.plugins(s, 1+g.Intn(4), false)
	for _, p := range sortedKeys(s.U.Plugins) {
		b := &StartB{GreetMs: g.Intn(500)}
		switch g.Intn(6) {
		case 0, 1:
			b.Sig = `ignore`
		case 2:
			b.Sig, b.SigMs = `slow`, g.Intn(2500)
		case 3:
			b.Sig, b.SigMs = `slow`, 3500+g.Intn(3)*10000
		}
		switch g.Intn(8) {
		case 0:
			b.ExitMs, b.ExitStatus = 500+g.Intn(3000), g.Intn(2)
		case 1:
			b.HoldMs = 1000 * (1 + g.Intn(100))
		case 2:
			b.Output = append(g.stderrLines(`x`, 3), &Out{On: `stdout`, Text: "noise\n", Rep: 30000})
		case 3:
			b.Calls = []*Call{{Nth: 1 + g.Intn(4), Do: g.Pick(`hang`, `500`, `crash`, `reset`)}}
		case 4:
			b.Greet = g.Pick(`garbage`, `none`, `badversion`)
		}
		s.U.Plugins[p].Starts = []*StartB{b}
		if b.Greet == `` && g.P(0.1) {
			s.Faults = append(s.Faults, &world.Fault{Op: `signal`, Path: p, Nth: 1, Kind: g.Pick(`EPERM`, `EAGAIN`)})
		}
	}
	n := 1 + g.Intn(3)
	if s.Kind == `cli` {
		n = 1
	}
	for i := 0; i < n; i++ {
		var ops []*Op
		for k := 1 + g.Intn(3); k > 0; k-- {
			o := g.pluginOp(s)
			o.Merge = g.Pick(`unique`, `deep`) // all plugins are needed
			if g.P(0.3) {
				o.DelayMs = g.Intn(2000)
			}
			ops = append(ops, o)
		}
		s.Clients = append(s.Clients, ops)
	}
	return s
}

var errEnd = errors.New(`the user function fails`)

func runC08(r *Run) {
	r.Main(func(x *Exec) {
		x.Install(true)
		var t0, t1 time.Duration
		end := r.Spec.S[`end`]
		begun := func() {
			if t0 == 0 {
				t0 = x.S.Now()
			}
		}
		j := &plugJudge{x: x, s: r.Spec}
		body := func(s api.Session) {
			x.driveLib(s, func(d *Done) {})
			begun()
			switch end {
			case `twice`:
				s.KillPlugins()
				s.KillPlugins()
			case `both`:
				a := simrt.GoSys(`stop`, s.KillPlugins)
				s.KillPlugins()
				x.Wait(a)
			case `panic`, `error-panic`:
				panic(errEnd)
			}
		}
		var t *simrt.Task
		tp, opts := r.Spec.top(nil)
		switch end {
		case `rest`:
			x.ExpectCrash = true
			x.Settled = begun
			if !x.Drive(func(d *Done) {}) {
				x.Fail(`stall`, `the server does not end: %s`, x.S.Blocked())
				return
			}
			if !strings.Contains(x.Crash, `stopped by the simulator`) {
				x.Fail(`end`, `the server ends with %q and not with the error of its listener`, x.Crash)
				return
			}
		case `cli`, `exit`:
			t = simrt.GoSys(`cli`, func() {
				for _, ops := range r.Spec.Clients {
					for _, o := range ops {
						x.CLI(o)
					}
				}
			})
		case `error`, `error-panic`:
			t = simrt.GoSys(`session`, func() {
				err := hiera.TryWithParent(context.Background(), tp, opts, func(s api.Session) error { body(s); return errEnd })
				if err == nil || !strings.Contains(err.Error(), errEnd.Error()) {
					x.Fail(`end`, `the error of the user function is reported as %v`, err)
				}
			})
		default:
			t = simrt.GoSys(`session`, func() {
				_, failed := Caught(func() { hiera.DoWithParent(context.Background(), tp, opts, body) })
				if failed != (end == `panic`) {
					x.Fail(`end`, `the user function of a session panics: %v, but the session: %v`, end == `panic`, failed)
				}
			})
		}
		if t != nil && !x.WaitFor(10*time.Minute, t) {
			x.Fail(`stall`, `the end of the session does not return: %s`, x.S.Blocked())
			return
		}
		t1 = x.S.Now()
		if end == `exit` {
			// the program ends, and what it has not done by now it will never do
			x.S.Eventf(`the program ends`)
			x.S.KillSystem()
		}
		r.A.Nontriv = len(x.Plug) > 0
		if max := time.Duration(len(x.Plug))*5200*time.Millisecond + time.Second; t0 > 0 && t1-t0 > max {
			x.Fail(`slow`, `the end of the session takes %s with %d plugins`, t1-t0, len(x.Plug))
			return
		}
		if !j.gone(5 * time.Second) {
			return
		}
		for _, p := range x.Plug {
			if !x.askedToEnd(p, t0) {
				return
			}
		}
	})
}

// askedToEnd checks how a plugin was ended.
func (x *Exec) askedToEnd(r *PlugRec, t0 time.Duration) bool {
	p := r.P
	if !r.Greeted || r.B.ExitMs > 0 {
		return true
	}
	for _, c := range r.Calls {
		if c.Did == `crash` {
			return true
		}
	}
	for _, f := range x.Spec.Faults {
		if f.Path == p.Path {
			return true
		}
	}
	if len(p.Signals) == 0 || p.Signals[0].Sig == syscall.SIGKILL {
		x.Fail(`asked`, `%s was not asked to terminate: signals %v`, p, p.Signals)
		return false
	}
	first := p.Signals[0]
	killed := time.Duration(0)
	for _, s := range p.Signals {
		if s.Sig == syscall.SIGKILL && killed == 0 {
			killed = s.At - first.At
		}
	}
	switch {
	case r.B.Sig == `slow` && r.B.SigMs <= 2500 && p.Status < 0:
		x.Fail(`killed`, `%s was killed after %s although it would have ended within %d ms`, p, killed, r.B.SigMs)
	case killed > 0 && killed < 2500*time.Millisecond && !p.ExitedBefore(first.At+killed):
		x.Fail(`killed`, `%s was killed %s after it was asked to terminate`, p, killed)
	case p.ExitedAt-first.At > 4*time.Second:
		x.Fail(`slow`, `%s ended only %s after it was asked to terminate`, p, p.ExitedAt-first.At)
	default:
		return true
	}
	return false
}

func genC09(g *Gen) *Spec {
	s := &Spec{Kind: g.Pick(`lib`, `lib`, `rest`), Policy: g.Policy(), MaxSteps: 6000000}
	g.plugins(s, 1+g.Intn(3), false)
	for i, p := range sortedKeys(s.U.Plugins) {
		pl := s.U.Plugins[p]
		for n := 1 + g.Intn(2); n > 0; n-- {
			b := &StartB{ExitStatus: g.Intn(2)}
			b.Output = g.stderrLines(`P`+itoa(i)+`.`+itoa(n), 1+g.Intn(5))
			last := b.Output[len(b.Output)-1]
			if g.P(0.4) {
				last.Text = strings.TrimSuffix(last.Text, "\n")
			}
			if g.P(0.4) {
				last.Exit = true
			}
			for k := 0; k < len(b.Output); k++ {
				o := b.Output[k]
				if o.AtMs = 0; g.P(0.3) {
					o.AtMs = g.Intn(800)
				}
			}
			for k := 0; k < len(b.Output) && g.P(0.3); k++ {
				b.Output[k].Early = !b.Output[k].Exit
			}
			if g.P(0.3) {
				b.Output = append(b.Output, &Out{On: `stdout`, Text: g.Pick("noise\n", "{}", "\x00\xff"), Rep: 1 + g.Intn(4)*20000, AtMs: g.Intn(500)})
			}
			if n > 1 {
				b.Greet = g.Pick(append([]string{`exit`}, badGreets...)...)
			} else if g.P(0.15) {
				b.Sig = `ignore`
			} else if g.P(0.1) {
				b.Calls = []*Call{{Nth: 2 + g.Intn(3), Do: `crash`}}
			}
			pl.Starts = append(pl.Starts, b)
		}
	}
	for i := 1 + g.Intn(3); i > 0; i-- {
		var ops []*Op
		for k := 1 + g.Intn(2); k > 0; k-- {
			o := g.pluginOp(s)
			if o.Key == `pl` {
				o.Key = `p0`
			}
			if g.P(0.6) {
				o.Merge = g.Pick(`unique`, `deep`)
			}
			if g.P(0.4) {
				o.DelayMs = g.Intn(1500)
			}
			ops = append(ops, o)
		}
		if g.P(0.6) {
			o := g.pluginOp(s)
			o.DelayMs = 6000
			ops = append(ops, o)
		}
		s.Clients = append(s.Clients, ops)
	}
	return s
}

func runC09(r *Run) {
	r.Main(func(x *Exec) {
		x.Install(true)
		x.Settled = func() {
			if r.Spec.Kind == `rest` {
				simrt.Sleep(8 * time.Second)
			} else {
				simrt.Sleep(2 * time.Second)
			}
			for _, p := range x.Plug {
				if p.Greeted && !p.P.Exited && p.outs > 0 && x.S.Now()-p.P.StartedAt > 7*time.Second {
					x.Fail(`blocked`, `%s cannot go on because nobody reads its output`, p.P)
				}
			}
		}
		j := x.drivePlugins()
		if j == nil || !j.gone(9*time.Second) {
			return
		}
		var all []byte
		for _, l := range x.Log {
			all = append(all, l.Data...)
		}
		blank := 0
		type want struct {
			p     *PlugRec
			lines []string
		}
		var ws []*want
		for _, p := range x.Plug {
			w := &want{p: p}
			bs := p.errWritten()
			if !p.P.Exited {
				// the end of the line is still to come
				bs = bs[:bytes.LastIndexByte(bs, '\n')+1]
			}
			if len(bs) > 0 {
				r.A.Nontriv = true
			}
			for _, l := range bytes.Split(bytes.TrimSuffix(bs, []byte{'\n'}), []byte{'\n'}) {
				if len(l) == 0 {
					if len(bs) > 0 {
						blank++
					}
				} else {
					w.lines = append(w.lines, string(l))
				}
			}
			ws = append(ws, w)
		}
		at := make([]int, len(ws))
	next:
		for _, bl := range bytes.Split(bytes.TrimSuffix(all, []byte{'\n'}), []byte{'\n'}) {
			l := string(bl)
			if l == `` {
				if len(all) > 0 {
					blank--
				}
				continue
			}
			for i, w := range ws {
				if at[i] < len(w.lines) && w.lines[at[i]] == l {
					at[i]++
					continue next
				}
			}
			if strings.HasPrefix(l, `time=`) {
				continue
			}
			if len(l) > 200 {
				l = fmt.Sprintf(`%s... (%d bytes)`, l[:200], len(l))
			}
			x.Fail(`log`, `the log has the line %q where no plugin has such a line next`, l)
			return
		}
		for i, w := range ws {
			if at[i] < len(w.lines) {
				l := w.lines[at[i]]
				if len(l) > 100 {
					l = l[:100]
				}
				x.Fail(`lost`, `the log has %d of the %d lines of %s; %q is missing`, at[i], len(w.lines), w.p.P, l)
				return
			}
		}
		if blank != 0 {
			x.Fail(`lost`, `the log lacks %d empty lines`, blank)
		}
	})
}
