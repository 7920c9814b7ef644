//go:build go1.22

package zzsim

import (
	"context"
	"errors"
	"path"
	"time"

	"github.com/lyraproj/dgo/dgo"
	"github.com/lyraproj/dgo/vf"
	"github.com/lyraproj/hiera/api"
	"github.com/lyraproj/hiera/hiera"
	"github.com/lyraproj/hiera/provider"
	sdk "github.com/lyraproj/hierasdk/hiera"
	"simkit/facade/simos"
	"simkit/simrt"
)

func init() {
	scenarios[`C17`] = &Scenario{Gen: genC17, Run: runC17, Shrink: shrinkC17,
		Rule: `a case is 2-3 sessions in one process with different configurations, data, modules, dialects, session variables and functions of the same names, some made from one map of options or from changing current directories, that share plugin programs, look up concurrently and end at different times, some with broken data or failing plugins of their own; non-trivial when lookups of two sessions overlapped`}
}

// Sess is one of several sessions of a process.
type Sess struct {
	U       *Universe         `json:"u"`
	Top     string            `json:"top,omitempty"`
	Module  string            `json:"modulepath,omitempty"`
	Dialect string            `json:"dialect,omitempty"`
	Scope   map[string]string `json:"scope,omitempty"`
	Tag     string            `json:"tag"`
	Clients [][]*Op           `json:"clients"`
	DelayMs int               `json:"delay_ms,omitempty"`
	LiveMs  int               `json:"live_ms,omitempty"` // it stays open for so long after its last lookup
	Panic   bool              `json:"panic,omitempty"`
	Memo    bool              `json:"memo,omitempty"`  // the top provider remembers something itself
	ByCwd   bool              `json:"bycwd,omitempty"` // the configuration is the one in the current directory
	Same    bool              `json:"same,omitempty"`  // it is made with the same map of options as others that are
}

func genC17(g *Gen) *Spec {
	s := &Spec{Kind: `lib`, Policy: g.Policy(), MaxSteps: 6000000}
	shared := g.P(0.6)
	same := g.P(0.3)
	for n := 2 + g.Intn(2); n > 0; n-- {
		ss := &Sess{Tag: `t` + itoa(n), Top: g.Pick(``, `mux`, `mux-module`), DelayMs: g.Intn(3) * g.Intn(30), LiveMs: g.Intn(3) * g.Intn(3000), Panic: g.P(0.1), Memo: g.P(0.4)}
		dir := `/s` + itoa(n)
		ss.ByCwd, ss.Same = g.P(0.3), same
		ss.Dialect = g.Pick(``, `dgo`, `pcore`)
		ss.U = g.Universe(uopt{interp: true, options: true, mapped: true, broken: g.P(0.2), funcs: true, pcore: ss.Dialect == `pcore`})
		ss.U.ConfigPath = dir + `/hiera.yaml`
		if ss.Top == `mux-module` {
			t := &Spec{U: ss.U}
			g.modules(t, false)
			for _, k := range sortedKeys(ss.U.Modules) {
				m := ss.U.Modules[k]
				delete(ss.U.Modules, k)
				m.Dir = dir + m.Dir
				ss.U.Modules[m.Dir] = m
			}
			ss.Module = dir + `/mods:` + dir + `/mods2`
		}
		ss.Scope = map[string]string{}
		for _, v := range scopeNames {
			if g.P(0.3) {
				ss.Scope[v] = g.Pick(scopeVars[v]...)
			}
		}
		ss.U.Entries = append(ss.U.Entries, &Entry{Name: `tagged`, Kind: `lookup_key`, Fn: `ftag`})
		if shared {
			path := g.Pick(`/plug/one`, `/plug/one`, `/plug/`+ss.Tag)
			pl := &Plugin{Funcs: map[string][]string{`lookup_key`: {`plk`}, `data_hash`: {`phash`}}}
			if path != `/plug/one` && g.P(0.5) {
				pl.Starts = []*StartB{{Greet: g.Pick(badGreets...)}, {Greet: ``, Calls: []*Call{{Nth: 2, Do: `500`}}}}
			} else {
				pl.Starts = []*StartB{{GreetMs: g.Intn(2) * g.Intn(800)}}
				if path != `/plug/one` {
					pl.Starts[0].Sig = g.Pick(``, `ignore`)
				}
			}
			ss.U.Plugins = map[string]*Plugin{path: pl}
			e := &Entry{Name: `plug`, Kind: `lookup_key`, Fn: `plk`, PluginFile: path, Options: map[string]interface{}{`of`: ss.Tag}}
			if g.P(0.3) {
				e.Kind, e.Fn = `data_hash`, `phash`
			}
			ss.U.Entries = append([]*Entry{e}, ss.U.Entries...)
		}
		for i := 1 + g.Intn(2); i > 0; i-- {
			var ops []*Op
			for k := 1 + g.Intn(3); k > 0; k-- {
				o := g.libOp()
				switch g.Intn(4) {
				case 0:
					o.Key = g.Pick(`tag`, `memo`, `topmemo`)
				case 1:
					if shared {
						o.Key = g.Pick(`p0`, `p1`, `ph.a`, `nokey`)
					}
				case 2:
					if ss.Top == `mux-module` {
						o.Key = g.modKey()
					}
				}
				if g.P(0.3) {
					o.DelayMs = g.Intn(1000)
				}
				ops = append(ops, o)
			}
			ss.Clients = append(ss.Clients, ops)
		}
		s.Sess = append(s.Sess, ss)
	}
	return s
}

func shrinkC17(s *Spec) (out []*Spec) {
	try := func(f func(c *Spec)) { c := s.Clone(); f(c); out = append(out, c) }
	for i, ss := range s.Sess {
		if len(s.Sess) > 1 {
			try(func(c *Spec) { c.Sess = append(c.Sess[:i:i], c.Sess[i+1:]...) })
		}
		for k := range ss.Clients {
			try(func(c *Spec) { q := c.Sess[i]; q.Clients = append(q.Clients[:k:k], q.Clients[k+1:]...) })
			for m := range ss.Clients[k] {
				try(func(c *Spec) {
					q := c.Sess[i]
					q.Clients[k] = append(q.Clients[k][:m:m], q.Clients[k][m+1:]...)
				})
			}
		}
		for k := range ss.U.Entries {
			try(func(c *Spec) { q := c.Sess[i].U; q.Entries = append(q.Entries[:k:k], q.Entries[k+1:]...) })
		}
		for _, p := range sortedKeys(ss.U.Files) {
			try(func(c *Spec) { delete(c.Sess[i].U.Files, p) })
		}
	}
	return
}

// functions of a session. The function ftag tells which session it belongs to, and remembers that in the cache.
func (ss *Sess) functions() map[string]interface{} {
	m := map[string]interface{}{}
	for k, f := range sessionFunctions {
		m[k] = f
	}
	m[`ftag`] = func(pc sdk.ProviderContext, key string) dgo.Value {
		simrt.YieldIO(`ftag`)
		sc := pc.(api.ServerContext)
		switch key {
		case `tag`:
			return vf.String(`tag of ` + ss.Tag)
		case `memo`:
			v, ok := sc.CachedValue(`memo`)
			if !ok {
				v = vf.String(`memo of ` + ss.Tag)
				sc.Cache(`memo`, v)
			}
			return v
		}
		return nil
	}
	return m
}

// run makes the session and its lookups.
func (x *Exec) run17(ss *Sess, done func(d *Done)) {
	sp := *x.Spec
	sp.U, sp.Top, sp.Clients = ss.U, ss.Top, ss.Clients
	sp.S = map[string]string{`modulepath`: ss.Module}
	tp, opts := sp.top(nil)
	opts[api.HieraFunctions] = ss.functions()
	if ss.Dialect != `` {
		opts[api.HieraDialect] = ss.Dialect
	}
	if len(ss.Scope) > 0 {
		opts[api.HieraScope] = ss.Scope
	}
	if ss.Memo {
		next := tp
		tp = func(pc sdk.ProviderContext, key string) dgo.Value {
			if key != `topmemo` {
				return next(pc, key)
			}
			simrt.YieldIO(`topmemo`)
			sc := pc.(api.ServerContext)
			v, ok := sc.CachedValue(`topmemo`)
			if !ok {
				v = vf.String(`top memo of ` + ss.Tag)
				sc.Cache(`topmemo`, v)
			}
			return v
		}
	}
	if ss.DelayMs > 0 {
		simrt.Sleep(ms(ss.DelayMs))
	}
	// What sessions are made from, the process changes before it makes the next one.
	var from interface{} = opts
	started := func() {}
	if ss.Same || ss.ByCwd {
		if ss.ByCwd {
			delete(opts, api.HieraConfig)
		}
		x.Making.Lock()
		making := true
		started = func() {
			if making {
				making = false
				x.Making.Unlock()
			}
		}
		simos.Chdir(path.Dir(ss.U.ConfigPath))
	}
	if ss.Same {
		if x.Options == nil {
			x.Options = vf.MutableMap()
		}
		for _, k := range []string{api.HieraConfig, api.HieraDialect, api.HieraScope, api.HieraFunctions, provider.ModulePath, provider.LookupKeyFunctions} {
			if v, ok := opts[k]; ok {
				x.Options.Put(k, v)
			} else if x.Options.Get(k) != nil {
				x.Options.Remove(k)
			}
		}
		from = x.Options
	}
	defer func() { started() }()
	_, _ = Caught(func() {
		hiera.DoWithParent(context.Background(), tp, from, func(s api.Session) {
			started()
			var ts []*simrt.Task
			for i, ops := range ss.Clients {
				ts = append(ts, simrt.GoSys(`client`+itoa(i)+ss.Tag, func() { x.libClient(s, i, ops, done) }))
			}
			if !x.WaitFor(10*time.Minute, ts...) {
				x.Fail(`stall`, `lookups of session %s do not end: %s`, ss.Tag, x.S.Blocked())
			}
			if ss.LiveMs > 0 {
				simrt.Sleep(ms(ss.LiveMs))
			}
			if ss.Panic {
				panic(errors.New(`the user function fails`))
			}
		})
	})
}

// install17 puts all sessions' data into the world.
func (x *Exec) install17(all []*Sess) {
	x.Install(true)
	for _, ss := range all {
		ss.U.Install(x)
	}
}

// expect is what the session gives by the model.
func (ss *Sess) expect(o *Op) Outcome {
	m := newModel(ss.U, ss.Top)
	m.mpath, m.tag = ss.Module, ss.Tag
	if ss.Memo && o.Key == `topmemo` {
		return found(`top memo of ` + ss.Tag)
	}
	for k, v := range ss.Scope {
		m.scope[k] = v
	}
	return m.lib(o)
}

type key17 struct{ s, c, n int }

func runC17(r *Run) {
	exp := map[key17]Outcome{}
	for i, ss := range r.Spec.Sess {
		r.Sub(func(x *Exec) {
			x.install17([]*Sess{ss})
			t := simrt.GoSys(`session`+ss.Tag, func() {
				x.run17(ss, func(d *Done) {
					exp[key17{i, d.Client, d.N}] = d.Out
					if w := ss.expect(d.Op); w.Status == `unknown` || ownPlugin(ss) {
						r.A.Stats[`probe:model unknown`]++
					} else if !w.Same(d.Out) {
						x.Fail(`wrong`, `%s in session %s alone gives %s, but its own data defines %s`, d.Op.id(), ss.Tag, d.Out, w)
					} else {
						r.A.Stats[`probe:model `+w.Status]++
					}
				})
			})
			if !x.WaitFor(20*time.Minute, t) {
				x.Fail(`stall`, `a session by itself does not end: %s`, x.S.Blocked())
			}
		})
		if r.Stop() {
			return
		}
	}
	type span struct{ s, from, to int }
	var spans []span
	r.Main(func(x *Exec) {
		x.install17(r.Spec.Sess)
		var ts []*simrt.Task
		for i, ss := range r.Spec.Sess {
			ts = append(ts, simrt.GoSys(`session`+ss.Tag, func() {
				x.run17(ss, func(d *Done) {
					spans = append(spans, span{i, d.From, d.To})
					e := exp[key17{i, d.Client, d.N}]
					if d.Out.Same(e) && (d.Out.Err == e.Err || ownPlugin(ss)) {
						return
					}
					if d.Out.Status != e.Status && ownPlugin(ss) {
						return // which call of the failing plugin it is depends on the schedule
					}
					x.Fail(`interference`, `%s in session %s gives %s, but %s when it is the only session`, d.Op.id(), ss.Tag, d.Out, e)
				})
			}))
		}
		if !x.WaitFor(20*time.Minute, ts...) {
			x.Fail(`stall`, `sessions do not end: %s`, x.S.Blocked())
			return
		}
		if x.S.Failed() {
			return
		}
		simrt.Sleep(9 * time.Second)
		if n := x.S.LiveTasks(); n > 0 {
			x.Fail(`leak`, `after the sessions have ended there are still %v`, x.S.Live())
		}
		for _, p := range x.Plug {
			if !p.P.Exited || !p.P.Reaped {
				x.Fail(`process`, `after the sessions have ended: %s`, p.P)
			}
		}
	})
	for _, a := range spans {
		for _, b := range spans {
			r.A.Nontriv = r.A.Nontriv || a.s != b.s && a.from < b.to && b.from < a.to
		}
	}
}

// ownPlugin tells if the session has a plugin of its own that fails at times.
func ownPlugin(ss *Sess) bool {
	for _, pl := range ss.U.Plugins {
		if len(pl.Starts) > 1 {
			return true
		}
	}
	return false
}
