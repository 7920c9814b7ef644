//go:build go1.22

package zzsim

import (
	"encoding/json"
	"fmt"
	"net/url"
	"strings"
	"time"

	"simkit/simrt"
	"simkit/world"
)

// Spec is a complete, explicit description of one evaluation: data, operations, faults and scheduling policy.
type Spec struct {
	Prop     string                 `json:"prop"`
	Kind     string                 `json:"kind,omitempty"`
	U        *Universe              `json:"u,omitempty"`
	Top      string                 `json:"top,omitempty"`
	Scope    map[string]interface{} `json:"scope,omitempty"` // of the session
	Args     []string               `json:"args,omitempty"`
	Env      map[string]string      `json:"env,omitempty"`
	Stdin    string                 `json:"stdin,omitempty"`
	Clients  [][]*Op                `json:"clients,omitempty"`
	Faults   []*world.Fault         `json:"faults,omitempty"`
	Events   []*Event               `json:"events,omitempty"`
	Net      []*NetFault            `json:"net,omitempty"`
	Policy   simrt.Policy           `json:"policy"`
	MaxSteps int                    `json:"max_steps,omitempty"`
	N        map[string]int         `json:"n,omitempty"`
	S        map[string]string      `json:"s,omitempty"`
	Sess     []*Sess                `json:"sess,omitempty"`
	Doc      *YNode                 `json:"doc,omitempty"`
}

// NetFault applies to the n-th connection attempt of the run (1-based).
type NetFault struct {
	N       int  `json:"n"`
	DelayMs int  `json:"delay_ms,omitempty"`
	Refuse  bool `json:"refuse,omitempty"`
	Hang    bool `json:"hang,omitempty"`
}

// Event is something the environment does at some time.
type Event struct {
	AtMs int       `json:"at_ms"`
	On   string    `json:"on,omitempty"`  // instead of a time: an operation and a path,
	Nth  int       `json:"nth,omitempty"` // and which one of these
	Do   string    `json:"do"`            // put, remove, clear-faults
	Path string    `json:"path,omitempty"`
	Data string    `json:"data,omitempty"`
	File *DataFile `json:"file,omitempty"` // instead of Data
}

// Op is one operation of a client.
type Op struct {
	Do      string                 `json:"do"`
	Path    string                 `json:"path,omitempty"` // raw request path, file, ...
	Key     string                 `json:"key,omitempty"`
	Vars    []string               `json:"vars,omitempty"`
	Scope   map[string]interface{} `json:"scope,omitempty"`
	Merge   string                 `json:"merge,omitempty"`
	Default *string                `json:"default,omitempty"`
	Type    string                 `json:"type,omitempty"`
	Inv     int                    `json:"inv,omitempty"`
	Sess    int                    `json:"sess,omitempty"`
	DelayMs int                    `json:"delay_ms,omitempty"`
	Val     string                 `json:"val,omitempty"`
	Keys    []string               `json:"keys,omitempty"`
	Explain string                 `json:"explain,omitempty"`
	N       int                    `json:"n,omitempty"`
	Over    map[string]interface{} `json:"over,omitempty"`  // values that override those of the hierarchy
	Dflts   map[string]interface{} `json:"dflts,omitempty"` // values for keys that are not found
}

func (o *Op) id() string { bs, _ := json.Marshal(o); return string(bs) }

// Target is the request target of a REST operation.
func (o *Op) Target() string {
	if o.Path != `` {
		if o.N > 0 {
			return strings.Replace(o.Path, `*`, strings.Repeat(o.Val, o.N), 1)
		}
		return o.Path
	}
	q := []string{}
	if o.Default != nil {
		q = append(q, `default=`+url.QueryEscape(*o.Default))
	}
	if o.Merge != `` {
		q = append(q, `merge=`+url.QueryEscape(o.Merge))
	}
	if o.Type != `` {
		q = append(q, `type=`+url.QueryEscape(o.Type))
	}
	for _, v := range o.Vars {
		q = append(q, `var=`+url.QueryEscape(v))
	}
	t := `/lookup/` + url.PathEscape(o.Key)
	if len(q) > 0 {
		t += `?` + strings.Join(q, `&`)
	}
	return t
}

// Install puts the spec's environment into the world.
func (x *Exec) Install(faults bool) {
	s := x.Spec
	w := x.W
	for _, p := range sortedKeys(s.Env) {
		w.Env[p] = s.Env[p]
	}
	w.Env[`TMPDIR`] = `/tmp`
	if d := s.S[`tmpdir`]; d != `` {
		w.Env[`TMPDIR`] = d
	}
	w.FS.Mkdir(w.Env[`TMPDIR`])
	if d := s.S[`sockdir`]; d != `` {
		w.FS.Mkdir(d)
	}
	w.FS.Mkdir(`/hiera`)
	if w.Cwd = s.S[`cwd`]; w.Cwd == `` {
		w.Cwd = `/hiera`
	}
	w.FS.Mkdir(w.Cwd)
	w.Stdin.Data = []byte(s.Stdin)
	if s.U != nil {
		s.U.Install(x)
	}
	if faults {
		x.ArmFaults()
		x.onEvents()
		for _, e := range s.Events {
			e := e
			if e.On != `` {
				continue
			}
			simrt.GoEnv(`event`, func() {
				simrt.Sleep(time.Duration(e.AtMs)*time.Millisecond + 3)
				x.Do(e)
			})
		}
		if len(s.Net) > 0 {
			w.NetPlan = func(n int, network, addr string) *world.DialPlan {
				for _, f := range s.Net {
					if f.N == n {
						return &world.DialPlan{DelayMs: f.DelayMs, Refuse: f.Refuse, Hang: f.Hang}
					}
				}
				return nil
			}
		}
	}
}

// onEvents makes events happen when the system does something.
func (x *Exec) onEvents() {
	var es []*Event
	for _, e := range x.Spec.Events {
		if e.On != `` {
			es = append(es, e)
		}
	}
	if es == nil {
		return
	}
	seen := map[*Event]int{}
	x.W.OnOp = func(op, path string) {
		for _, e := range es {
			if e.On == op+` `+path {
				if seen[e]++; seen[e] == e.Nth || e.Nth == 0 && seen[e] == 1 {
					x.Do(e)
				}
			}
		}
	}
}

// ArmFaults makes the spec's faults active.
func (x *Exec) ArmFaults() {
	for _, f := range x.Spec.Faults {
		c := world.Fault{Op: f.Op, Path: f.Path, Nth: f.Nth, Kind: f.Kind, Off: f.Off, Ms: f.Ms}
		x.W.Faults = append(x.W.Faults, &c)
	}
}

// Do performs an event.
func (x *Exec) Do(e *Event) {
	switch e.Do {
	case `put`:
		if e.File != nil {
			x.W.FS.Put(e.Path, e.File.Text())
		} else {
			x.W.FS.Put(e.Path, e.Data)
		}
	case `remove`:
		x.W.FS.Remove(e.Path)
	case `clear-faults`:
		x.S.Eventf(`faults cleared`)
		x.W.Faults = nil
		x.W.NetPlan = nil
		x.W.OnOp = nil
	default:
		x.S.Harness(`unknown event ` + e.Do)
	}
}

// Clone copies a spec.
func (s *Spec) Clone() *Spec {
	bs, err := json.Marshal(s)
	if err != nil {
		panic(err)
	}
	c := &Spec{}
	if err = json.Unmarshal(bs, c); err != nil {
		panic(err)
	}
	return c
}

// genericShrink lists simpler variants of a spec, the boldest first.
func genericShrink(s *Spec) (out []*Spec) {
	try := func(f func(c *Spec)) { c := s.Clone(); f(c); out = append(out, c) }
	for i := range s.Clients {
		if len(s.Clients) > 1 {
			try(func(c *Spec) { c.Clients = append(c.Clients[:i:i], c.Clients[i+1:]...) })
		}
	}
	for i := range s.Clients {
		for k := range s.Clients[i] {
			if len(s.Clients[i]) > 1 {
				try(func(c *Spec) { c.Clients[i] = append(c.Clients[i][:k:k], c.Clients[i][k+1:]...) })
			}
		}
	}
	for i := range s.Faults {
		try(func(c *Spec) { c.Faults = append(c.Faults[:i:i], c.Faults[i+1:]...) })
	}
	for i := range s.Events {
		try(func(c *Spec) { c.Events = append(c.Events[:i:i], c.Events[i+1:]...) })
	}
	for i := range s.Net {
		try(func(c *Spec) { c.Net = append(c.Net[:i:i], c.Net[i+1:]...) })
	}
	for k := 0; k+1 < len(s.Args); k += 2 {
		// arguments come as pairs of a flag and its value
		try(func(c *Spec) { c.Args = append(c.Args[:k:k], c.Args[k+2:]...) })
	}
	if u := s.U; u != nil {
		for i := range u.Entries {
			if len(u.Entries) > 1 {
				try(func(c *Spec) { c.U.Entries = append(c.U.Entries[:i:i], c.U.Entries[i+1:]...) })
			}
		}
		for _, p := range sortedKeys(u.Files) {
			try(func(c *Spec) { delete(c.U.Files, p) })
		}
		for _, p := range sortedKeys(u.Files) {
			for _, k := range sortedKeys(u.Files[p].Data) {
				try(func(c *Spec) { delete(c.U.Files[p].Data, k) })
			}
		}
		for _, m := range sortedKeys(u.Modules) {
			try(func(c *Spec) { delete(c.U.Modules, m) })
		}
		for _, p := range sortedKeys(u.Plugins) {
			pl := u.Plugins[p]
			for i := range pl.Starts {
				if len(pl.Starts) > 1 {
					try(func(c *Spec) { q := c.U.Plugins[p]; q.Starts = append(q.Starts[:i:i], q.Starts[i+1:]...) })
				}
				st := pl.Starts[i]
				for k := range st.Calls {
					try(func(c *Spec) { q := c.U.Plugins[p].Starts[i]; q.Calls = append(q.Calls[:k:k], q.Calls[k+1:]...) })
				}
				for k := range st.Output {
					try(func(c *Spec) {
						q := c.U.Plugins[p].Starts[i]
						q.Output = append(q.Output[:k:k], q.Output[k+1:]...)
					})
				}
			}
		}
	}
	return
}

// normalize turns decoded JSON numbers into int64.
func normalize(v interface{}) interface{} {
	switch v := v.(type) {
	case float64:
		if v == float64(int64(v)) {
			return int64(v)
		}
		return v
	case int:
		return int64(v)
	case []interface{}:
		r := make([]interface{}, len(v))
		for i, e := range v {
			r[i] = normalize(e)
		}
		return r
	case map[string]interface{}:
		r := make(map[string]interface{}, len(v))
		for k, e := range v {
			r[k] = normalize(e)
		}
		return r
	}
	return v
}

// canon renders a value in a canonical form.
func canon(v interface{}) string {
	bs, err := json.Marshal(normalize(v))
	if err != nil {
		return fmt.Sprintf(`!%v`, v)
	}
	return string(bs)
}

// canonJSON canonicalises a JSON text.
func canonJSON(s string) (string, bool) {
	var v interface{}
	if err := json.Unmarshal([]byte(s), &v); err != nil {
		return s, false
	}
	return canon(v), true
}

func jsonInto(s string, v interface{}) {
	if err := json.Unmarshal([]byte(s), v); err != nil {
		panic(err)
	}
}
