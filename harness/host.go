//go:build go1.22

package zzsim

import (
	"bufio"
	"context"
	"fmt"
	"net/http"
	"net/http/httptest"
	"strings"

	"github.com/lyraproj/dgo/dgo"
	"github.com/lyraproj/dgo/streamer"
	"github.com/lyraproj/dgo/typ"
	"github.com/lyraproj/dgo/vf"
	"github.com/lyraproj/hiera/api"
	"github.com/lyraproj/hiera/explain"
	"github.com/lyraproj/hiera/hiera"
	"github.com/lyraproj/hiera/provider"
	sdk "github.com/lyraproj/hierasdk/hiera"
	"simkit/facade/simos"
	"simkit/simrt"
	"simkit/simsync"
	"simkit/world"
)

// Server is a running REST server.
type Server struct {
	x    *Exec
	h    *world.HTTPServer
	task *simrt.Task
	n    int
}

// StartServer runs the real main function of the REST server.
func (x *Exec) StartServer(args []string) *Server {
	simos.Args = append([]string{`server`}, args...)
	t := simrt.GoSys(`server`, serverMain)
	t.OnExit(func() { x.W.ServerQ.WakeAll() })
	for len(x.W.Servers) == 0 && !t.Done() {
		x.W.ServerQ.Wait(`server start`)
	}
	s := &Server{x: x, task: t}
	if len(x.W.Servers) > 0 {
		s.h = x.W.Servers[len(x.W.Servers)-1]
	}
	return s
}

// Up tells if the server is still serving.
func (s *Server) Up() bool { return s.h != nil && !s.task.Done() && s.x.W.ExitCode == nil }

// Resp is the answer to a request.
type Resp struct {
	Code    int
	Body    string
	Type    string
	Answers int // how many status lines the handler has asked for
	Panic   string
	Task    *simrt.Task
	Gone    bool // the client went away before it had the answer
}

type recorder struct {
	hd      http.Header
	code    int
	answers int
	body    []byte
	gone    bool
}

func (r *recorder) Header() http.Header { return r.hd }
func (r *recorder) WriteHeader(c int) {
	simrt.YieldIO(`write header`)
	r.answers++
	if r.code == 0 {
		r.code = c
	}
}
func (r *recorder) Write(b []byte) (int, error) {
	if r.code == 0 {
		r.WriteHeader(200)
	}
	simrt.YieldIO(`write body`)
	if f := world.W.Hit(`answer`, ``); f != nil {
		r.gone = true
		return 0, world.Errno(f.Kind)
	}
	r.body = append(r.body, b...)
	return len(b), nil
}

// Start begins to serve a request the way net/http does: in a goroutine of its own, recovering from panics.
func (s *Server) Start(target string) (*Resp, *simrt.Task) {
	resp := &Resp{}
	s.n++
	if len(target) > 1<<20 {
		// so does this
		resp.Code, resp.Answers = 431, 1
		return resp, nil
	}
	req, err := http.ReadRequest(bufio.NewReader(strings.NewReader("GET " + target + " HTTP/1.1\r\nHost: sim\r\n\r\n")))
	if err != nil {
		// net/http answers this itself
		resp.Code, resp.Answers = 400, 1
		return resp, nil
	}
	t := simrt.GoSys(`request`, func() {
		rec := &recorder{hd: http.Header{}}
		ok := false
		defer func() {
			resp.Gone = rec.gone
			if ok {
				return
			}
			if e := recover(); e != nil {
				if simsync.IsFatal(e) {
					panic(e)
				}
				resp.Panic = fmt.Sprint(e)
			}
			resp.Code, resp.Body, resp.Answers = rec.code, string(rec.body), rec.answers
		}()
		t0 := s.x.S.Now()
		s.h.Handler.ServeHTTP(rec, req)
		if wt := s.h.WriteTimeout; wt > 0 && s.x.S.Now()-t0 > wt {
			resp.Panic, ok = fmt.Sprintf(`the answer is dropped after %s`, wt), true
			return
		}
		resp.Code, resp.Body, resp.Answers, resp.Type = rec.code, string(rec.body), rec.answers, rec.hd.Get(`Content-Type`)
		if resp.Code == 0 {
			resp.Code, resp.Answers = 200, 1 // what net/http sends for a handler that wrote nothing
		}
		ok = true
	})
	return resp, t
}

// Get makes a request and waits for its end.
func (s *Server) Get(target string) *Resp {
	r, t := s.Start(target)
	if t != nil {
		s.x.Wait(t)
	}
	r.Task = t
	return r
}

// Outcome interprets an answer.
func (r *Resp) Outcome() Outcome {
	switch {
	case r.Panic != ``:
		return Outcome{Status: `noanswer`, Err: `handler panics: ` + r.Panic}
	case r.Code == 200:
		c, ok := canonJSON(r.Body)
		if !ok {
			return Outcome{Status: `garbled`, Val: r.Body}
		}
		return Outcome{Status: `found`, Val: c}
	case r.Code == 404:
		return Outcome{Status: `notfound`}
	case r.Code == 500:
		return Outcome{Status: `error`, Err: strings.TrimSpace(r.Body)}
	}
	return Outcome{Status: fmt.Sprintf(`status%d`, r.Code), Err: strings.TrimSpace(r.Body)}
}

var _ = httptest.NewRecorder

// top returns the top provider and the session options for the kind of session.
func (s *Spec) top(extra map[string]interface{}) (sdk.LookupKey, map[string]interface{}) {
	opts := map[string]interface{}{}
	if s.U != nil {
		switch p := s.S[`configby`]; p {
		case ``:
			opts[api.HieraConfig] = s.U.config()
		case `cwd`, `env`:
		case `root`:
			opts[api.HieraRoot] = `/hiera`
		default:
			opts[api.HieraConfigFileName] = p
		}
	}
	for k, v := range extra {
		opts[k] = v
	}
	if mp := s.S[`modulepath`]; mp != `` {
		opts[provider.ModulePath] = mp
	}
	if s.Kind == `lib` {
		if t := s.S[`transport`]; t != `` {
			opts[`pluginTransport`] = t
		}
		if d := s.S[`sockdir`]; d != `` {
			opts[`unixSocketDir`] = d
		}
		opts[api.HieraFunctions] = sessionFunctions
		if s.Scope != nil {
			opts[api.HieraScope] = normalize(s.Scope)
		}
	}
	switch s.Top {
	case `mux`:
		opts[provider.LookupKeyFunctions] = []sdk.LookupKey{provider.ConfigLookupKey, provider.Environment}
		return provider.MuxLookupKey, opts
	case `mux-module`:
		opts[provider.LookupKeyFunctions] = []sdk.LookupKey{provider.ConfigLookupKey, provider.ModuleLookupKey}
		return provider.MuxLookupKey, opts
	case `mux-yaml`:
		opts[`path`] = s.S[`yamlpath`]
		opts[provider.LookupKeyFunctions] = []sdk.LookupKey{provider.YamlLookupKey, provider.ScopeLookupKey, provider.Environment}
		return provider.MuxLookupKey, opts
	case `yaml`:
		opts[`path`] = s.S[`yamlpath`]
		return provider.YamlLookupKey, opts
	case `module`:
		return provider.ModuleLookupKey, opts
	}
	return provider.ConfigLookupKey, opts
}

// Session runs body in a library session, in a task of the system, and waits for its end.
func (x *Exec) Session(extra map[string]interface{}, body func(s api.Session)) *simrt.Task {
	tp, opts := x.Spec.top(extra)
	return simrt.GoSys(`session`, func() {
		hiera.DoWithParent(context.Background(), tp, opts, body)
	})
}

// scopeOf turns variables of an operation into an invocation scope.
func scopeOf(o *Op) map[string]interface{} {
	m := map[string]interface{}{}
	for k, v := range o.Scope {
		m[k] = normalize(v)
	}
	for _, v := range o.Vars {
		if i := strings.IndexAny(v, `:=`); i > 0 {
			m[v[:i]] = v[i+1:]
		}
	}
	return m
}

func toDgo(v interface{}) dgo.Value { return vf.Value(normalize(v)) }

func fromDgo(s api.Session, v dgo.Value) (string, bool) {
	var sb strings.Builder
	opts := streamer.DefaultOptions()
	opts.DedupLevel = streamer.NoDedup
	simrt.Atomically(func() { streamer.New(s.AliasMap(), opts).Stream(v, streamer.JSON(&sb)) })
	return canonJSON(sb.String())
}

// Lib performs a library lookup in an invocation.
func Lib(s api.Session, ic api.Invocation, o *Op) (out Outcome) {
	msg, failed := Caught(func() {
		var opts map[string]interface{}
		if o.Merge != `` {
			opts = map[string]interface{}{`merge`: o.Merge}
		}
		var dflt dgo.Value
		if o.Default != nil {
			dflt = vf.String(*o.Default)
		}
		var v dgo.Value
		if o.Do == `first` {
			v = hiera.Lookup2(ic, o.Keys, typeOf(s, o.Type), dflt, dgoMap(o.Over), dgoMap(o.Dflts), api.ToMap(`options`, opts), nil)
		} else if opts == nil {
			v = hiera.Lookup(ic, o.Key, dflt, nil)
		} else {
			v = hiera.Lookup(ic, o.Key, dflt, opts)
		}
		if v == nil {
			out = Outcome{Status: `notfound`}
			return
		}
		c, ok := fromDgo(s, v)
		if !ok {
			out = Outcome{Status: `garbled`, Val: c}
			return
		}
		out = Outcome{Status: `found`, Val: c}
		simrt.Atomically(func() { out.text = vf.Values(v).String() })
		out.text = out.text[1 : len(out.text)-1]
	})
	if failed {
		return Outcome{Status: `error`, Err: msg}
	}
	return out
}

func dgoMap(m map[string]interface{}) dgo.Map {
	if m == nil {
		return nil
	}
	return toDgo(m).(dgo.Map)
}

func typeOf(s api.Session, t string) (tp dgo.Type) {
	if t == `` {
		return typ.Any
	}
	simrt.Atomically(func() { tp = s.Dialect().ParseType(nil, vf.String(t)) })
	return
}

// LibAll looks up several keys at once.
func LibAll(s api.Session, ic api.Invocation, o *Op) (out Outcome) {
	msg, failed := Caught(func() {
		var opts dgo.Map
		if o.Merge != `` {
			opts = vf.Map(`merge`, o.Merge)
		}
		c, ok := fromDgo(s, hiera.LookupAll(ic, o.Keys, nil, dgoMap(o.Over), dgoMap(o.Dflts), opts))
		if out = (Outcome{Status: `found`, Val: c}); !ok {
			out.Status = `garbled`
		}
	})
	if failed {
		return Outcome{Status: `error`, Err: msg}
	}
	return out
}

// Invoke makes an invocation for an operation.
func Invoke(s api.Session, o *Op) api.Invocation { ic, _ := Invoke2(s, o); return ic }

// Invoke2 makes an invocation for an operation, with its explainer if there is one.
func Invoke2(s api.Session, o *Op) (api.Invocation, api.Explainer) {
	var ex api.Explainer
	switch o.Explain {
	case `data`:
		ex = explain.NewExplainer(false, false)
	case `options`:
		ex = explain.NewExplainer(true, true)
	case `both`:
		ex = explain.NewExplainer(true, false)
	default:
		return s.Invocation(scopeOf(o), nil), nil
	}
	return s.Invocation(scopeOf(o), ex), ex
}
