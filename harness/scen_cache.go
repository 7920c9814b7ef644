//go:build go1.22

package zzsim

import (
	"context"
	"errors"
	"strings"
	"time"

	"github.com/lyraproj/dgo/dgo"
	"github.com/lyraproj/dgo/vf"
	"github.com/lyraproj/hiera/api"
	"github.com/lyraproj/hiera/hiera"
	"github.com/lyraproj/hiera/provider"
	sdk "github.com/lyraproj/hierasdk/hiera"
	"simkit/simrt"
)

func init() {
	scenarios[`C11`] = &Scenario{Gen: genC11, Run: runC11, Shrink: shrinkC11,
		Rule: `a case is 1-2 sessions with 2-5 clients each whose lookups run functions (the top provider itself, or functions of hierarchy entries, in nested and shared invocations) that store, replace, read and enumerate values of several kinds (also empty and nil ones) under up to 3 keys of the session cache, with slow functions and some that panic in between; non-trivial when two operations on one key of a session overlapped and one of them stored`}
}

// cacheSess is the cache part of a session: Op.Do is put, putall, get, range or panic; Op.Keys are cache keys.
func genC11(g *Gen) *Spec {
	s := &Spec{Kind: `lib`, Policy: g.Policy(), MaxSteps: 6000000, S: map[string]string{}, N: map[string]int{}}
	keys := []string{`k0`, `k1`, `k2`}[:1+g.Intn(3)]
	for n := 1 + g.Intn(2); n > 0; n-- {
		ss := &Sess{Tag: `t` + itoa(n), Top: g.Pick(`direct`, `config`, `mux`)}
		for i := 2 + g.Intn(4); i > 0; i-- {
			var ops []*Op
			for k := 1 + g.Intn(4); k > 0; k-- {
				o := &Op{Do: g.Pick(`put`, `put`, `put`, `get`, `get`, `putall`, `range`, `twice`), Inv: g.Intn(2), N: g.Intn(3), DelayMs: g.Intn(8) / 7 * g.Intn(3)}
				o.Keys = []string{g.Pick(keys...)}
				if o.Do == `putall` {
					o.Keys = nil
					for _, k := range keys {
						if g.P(0.7) {
							o.Keys = append(o.Keys, k)
						}
					}
				}
				o.Type = g.Pick(``, ``, ``, `map`, `array`, `sensitive`, `empty`, `empty`)
				if g.P(0.12) {
					o.Val = `panic`
				}
				ops = append(ops, o)
			}
			ss.Clients = append(ss.Clients, ops)
		}
		s.Sess = append(s.Sess, ss)
	}
	return s
}

func shrinkC11(s *Spec) (out []*Spec) {
	try := func(f func(c *Spec)) { c := s.Clone(); f(c); out = append(out, c) }
	for i, ss := range s.Sess {
		if len(s.Sess) > 1 {
			try(func(c *Spec) { c.Sess = append(c.Sess[:i:i], c.Sess[i+1:]...) })
		}
		for k := range ss.Clients {
			try(func(c *Spec) { q := c.Sess[i]; q.Clients = append(q.Clients[:k:k], q.Clients[k+1:]...) })
			for m := range ss.Clients[k] {
				try(func(c *Spec) {
					q := c.Sess[i]
					q.Clients[k] = append(q.Clients[k][:m:m], q.Clients[k][m+1:]...)
				})
			}
		}
	}
	return
}

// cacheEvent is one operation on one key, as the history records it.
type cacheEvent struct {
	key      string
	store    string // the value stored, or nothing
	knows    bool   // the operation tells what was there before
	old      string // that value, or nothing
	from, to int
	client   int
	what     string
}

type cacheHistory struct {
	x     *Exec
	clock int
	vals  int
	evs   []*cacheEvent
}

func (h *cacheHistory) tick() int { h.clock++; return h.clock }

func (h *cacheHistory) begin(key string, c int, what string) *cacheEvent {
	e := &cacheEvent{key: key, from: h.tick(), to: 1 << 30, client: c, what: what}
	h.evs = append(h.evs, e)
	return e
}

func (e *cacheEvent) String() string {
	s := `client ` + itoa(e.client) + ` ` + e.what + ` ` + e.key + ` [` + itoa(e.from) + `,` + itoa(e.to) + `]`
	if e.store != `` {
		s += ` stores ` + e.store
	}
	if e.knows {
		if e.old == `` {
			return s + ` gets nothing`
		}
		s += ` gets ` + e.old
	}
	return s
}

// perform carries out an operation on the cache.
func (h *cacheHistory) perform(ss *Sess, client int, o *Op, sc api.ServerContext, keys []string) {
	pause := func(n int) {
		for ; n > 0; n-- {
			simrt.YieldIO(`function`)
		}
	}
	val := func() dgo.Value {
		h.vals++
		tag := ss.Tag + `-` + itoa(h.vals)
		switch o.Type {
		case `map`:
			return vf.Map(`v`, tag)
		case `array`:
			return vf.Values(tag)
		case `sensitive`:
			return vf.Sensitive(tag)
		case `empty`:
			return []dgo.Value{vf.String(``), vf.Nil, vf.False, vf.Integer(0), vf.Values(), vf.Map(), vf.Float(0)}[h.vals%7]
		}
		return vf.String(tag)
	}
	str := func(v dgo.Value) string {
		switch v := v.(type) {
		case nil:
			return ``
		case dgo.Sensitive:
			return `sensitive ` + v.Unwrap().String()
		}
		return v.Type().TypeIdentifier().String() + ` ` + v.String()
	}
	pause(o.N)
	switch o.Do {
	case `put`, `twice`:
		for n := 0; n < 1 || o.Do == `twice` && n < 2; n++ {
			e := h.begin(o.Keys[0], client, `put`)
			v := val()
			e.store = str(v)
			e.old = str(sc.Cache(o.Keys[0], v))
			e.knows, e.to = true, h.tick()
		}
	case `get`:
		e := h.begin(o.Keys[0], client, `get`)
		v, ok := sc.CachedValue(o.Keys[0])
		if e.old = str(v); ok != (e.old != ``) {
			h.x.Fail(`cache`, `CachedValue gives %v, %v`, v, ok)
		}
		e.knows, e.to = true, h.tick()
	case `putall`:
		m := vf.MutableMap()
		var es []*cacheEvent
		for _, k := range o.Keys {
			e := h.begin(k, client, `putall`)
			v := val()
			e.store = str(v)
			m.Put(k, v)
			es = append(es, e)
		}
		sc.CacheAll(m)
		for _, e := range es {
			e.to = h.tick()
		}
	case `range`:
		es := map[string]*cacheEvent{}
		for _, k := range keys {
			es[k] = h.begin(k, client, `range`)
		}
		complete := false
		_, _ = Caught(func() {
			sc.CachedEntries(func(k string, v dgo.Value) {
				e := es[k]
				switch {
				case e == nil:
					h.x.Fail(`cache`, `CachedEntries gives the key %s that nobody stored`, k)
				case e.knows:
					h.x.Fail(`cache`, `CachedEntries gives the key %s twice`, k)
				default:
					e.knows, e.old, e.to = true, str(v), h.tick()
				}
				pause(o.N)
				if o.Val == `panic` {
					panic(errors.New(`the consumer fails`))
				}
			})
			complete = true
		})
		for _, k := range keys {
			if e := es[k]; !e.knows && complete {
				e.knows, e.to = true, h.tick()
			}
		}
	}
	if o.Val == `panic` {
		panic(errors.New(`the function fails`))
	}
}

// explained searches an order of the operations on one key that agrees with real time and with what they gave.
func explained11(evs []*cacheEvent) bool {
	n := len(evs)
	if n > 60 {
		return true
	}
	seen := map[string]bool{}
	var try func(done uint64, cur string) bool
	try = func(done uint64, cur string) bool {
		all := true
		limit := 1 << 31
		for i, e := range evs {
			if done&(1<<i) == 0 {
				if e.to < limit {
					limit = e.to
				}
				all = all && e.to == 1<<30 // an operation that did not end may not have happened
			}
		}
		if all {
			return true
		}
		id := itoa(int(done)) + `/` + cur
		if seen[id] {
			return false
		}
		seen[id] = true
		for i, e := range evs {
			if done&(1<<i) != 0 || e.from > limit || e.knows && e.old != cur {
				continue
			}
			next := cur
			if e.store != `` {
				next = e.store
			}
			if try(done|1<<i, next) {
				return true
			}
		}
		return false
	}
	return try(0, ``)
}

func runC11(r *Run) {
	keys := []string{`k0`, `k1`, `k2`}
	hs := make([]*cacheHistory, len(r.Spec.Sess))
	r.Main(func(x *Exec) {
		x.Install(true)
		var ts []*simrt.Task
		for i, ss := range r.Spec.Sess {
			h := &cacheHistory{x: x}
			hs[i] = h
			x.W.FS.Put(`/s`+ss.Tag+`/hiera.yaml`, "version: 5\nhierarchy:\n- name: c\n  lookup_key: fcache\n")
			fn := func(pc sdk.ProviderContext, key string) dgo.Value {
				p := strings.Split(key, `_`)
				if p[0] != `op` {
					return nil
				}
				c, n := atoi(p[1]), atoi(p[2])
				h.perform(ss, c, ss.Clients[c][n], pc.(api.ServerContext), keys)
				return vf.String(`done`)
			}
			opts := map[string]interface{}{api.HieraConfig: `/s` + ss.Tag + `/hiera.yaml`, api.HieraFunctions: map[string]interface{}{`fcache`: fn}}
			var tp sdk.LookupKey = fn
			switch ss.Top {
			case `config`:
				tp = provider.ConfigLookupKey
			case `mux`:
				tp = provider.MuxLookupKey
				opts[provider.LookupKeyFunctions] = []sdk.LookupKey{provider.ConfigLookupKey, provider.Environment}
			}
			ts = append(ts, simrt.GoSys(`session`+ss.Tag, func() {
				hiera.DoWithParent(context.Background(), tp, opts, func(s api.Session) {
					var cs []*simrt.Task
					for c, ops := range ss.Clients {
						cs = append(cs, simrt.GoSys(`client`+itoa(c), func() {
							ic := s.Invocation(nil, nil)
							for n, o := range ops {
								if o.DelayMs > 0 {
									simrt.Sleep(ms(o.DelayMs))
								}
								iv := ic
								if o.Inv > 0 {
									iv = s.Invocation(nil, nil)
								}
								msg, failed := Caught(func() {
									if v := hiera.Lookup(iv, `op_`+itoa(c)+`_`+itoa(n), nil, nil); v == nil || v.String() != `done` {
										x.Fail(`cache`, `the lookup of operation %d of client %d gives %v`, n, c, v)
									}
								})
								if failed && o.Val != `panic` {
									x.Fail(`cache`, `operation %d of client %d fails: %s`, n, c, msg)
								}
							}
						}))
					}
					if !x.WaitFor(5*time.Minute, cs...) {
						x.Fail(`stall`, `operations on the cache do not end: %s`, x.S.Blocked())
					}
				})
			}))
		}
		if !x.WaitFor(10*time.Minute, ts...) {
			x.Fail(`stall`, `sessions do not end: %s`, x.S.Blocked())
		}
	})
	if r.Stop() {
		return
	}
	for i, h := range hs {
		for _, k := range keys {
			var evs []*cacheEvent
			for _, e := range h.evs {
				if e.key == k {
					for _, o := range evs {
						if o.client != e.client && o.from < e.to && e.from < o.to && o.store+e.store != `` {
							r.A.Nontriv = true
						}
					}
					evs = append(evs, e)
				}
			}
			if !explained11(evs) {
				msg := ``
				for _, e := range evs {
					msg += "\n  " + e.String()
				}
				r.Fail(`cache`, `no order explains what the operations on %s of session %s gave:%s`, k, r.Spec.Sess[i].Tag, msg)
				return
			}
		}
	}
}

func atoi(s string) (n int) {
	for _, c := range s {
		n = n*10 + int(c-'0')
	}
	return
}
