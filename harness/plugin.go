//go:build go1.22

package zzsim

import (
	"bufio"
	"encoding/json"
	"fmt"
	"net/http"
	"net/url"
	"strings"
	"syscall"
	"time"

	"github.com/lyraproj/hierasdk/hiera"
	"simkit/simrt"
	"simkit/world"
)

// Plugin is a simulated plugin program.
type Plugin struct {
	Funcs  map[string][]string `json:"funcs"` // kind -> names
	Starts []*StartB           `json:"starts,omitempty"`
}

// StartB is how one process of the plugin behaves. The last one repeats.
type StartB struct {
	Greet      string  `json:"greet,omitempty"` // empty: correct
	GreetMs    int     `json:"greet_ms,omitempty"`
	Pieces     bool    `json:"pieces,omitempty"`
	NoListen   bool    `json:"no_listen,omitempty"`
	ExitMs     int     `json:"exit_ms,omitempty"`
	ExitStatus int     `json:"exit_status,omitempty"`
	Sig        string  `json:"sig,omitempty"` // empty: dies; slow; ignore
	SigMs      int     `json:"sig_ms,omitempty"`
	HoldMs     int     `json:"hold_ms,omitempty"` // a process that it leaves behind keeps its pipes open for so long
	Output     []*Out  `json:"output,omitempty"`
	Calls      []*Call `json:"calls,omitempty"`
}

// Out is something that the process writes.
type Out struct {
	AtMs  int    `json:"at_ms,omitempty"`
	On    string `json:"on"` // stderr, stdout
	Text  string `json:"text"`
	Rep   int    `json:"rep,omitempty"`
	Chunk int    `json:"chunk,omitempty"`
	Exit  bool   `json:"exit,omitempty"` // exit right afterwards
	Early bool   `json:"early,omitempty"`
}

// Call is how the process deals with a call.
type Call struct {
	Nth int    `json:"nth,omitempty"` // 1-based; 0: every call
	Do  string `json:"do"`
	Ms  int    `json:"ms,omitempty"`
}

// PlugRec is what happened in a plugin process.
type PlugRec struct {
	P       *world.Proc
	Path    string
	Greeted bool
	Calls   []*CallRec
	Err     []byte // what the process wants to have written to stderr so far
	ErrDone bool
	OutDone bool
	ncall   int
	outs    int
	B       *StartB
	Others  int // other live processes of the same plugin when this one began
}

// CallRec is one call that reached a plugin.
type CallRec struct {
	Kind, Fn, Key, Opts string
	ID                  string // option that tells which operation it belongs to
	Seq                 int
	Code                int
	Len                 int
	At                  time.Duration
	Did                 string
	Done                bool
}

func (b *StartB) call(n int) *Call {
	for _, c := range b.Calls {
		if c.Nth == n || c.Nth == 0 {
			return c
		}
	}
	return nil
}

// echo is the answer of a correct plugin: a pure function of the call.
func echo(path, kind, fn, key, opts string) (int, string) {
	switch {
	case strings.HasPrefix(fn, `none`), strings.HasPrefix(key, `no`), key == `lookup_options`, strings.HasPrefix(key, `["no`), strings.HasPrefix(key, `["lookup_options"`):
		return 404, "404 value not found\n"
	}
	// what is not interpolated on the way to the plugin must not be interpolated on the way back
	id := strings.Replace(path+`|`+kind+`|`+fn+`|`+key+`|`+opts, `%{`, `%[`, -1)
	switch {
	case strings.HasPrefix(fn, `nul`):
		return 200, "null\n"
	case strings.HasPrefix(fn, `arr`):
		return 200, jsonText([]interface{}{id, 1})
	}
	special := map[string]interface{}{`pn`: nil, `pf`: false, `pe`: ``, `pu`: `é<&>"\` + "\u2028\n" + id, `pi`: 123456789012, `pd`: 1.5,
		`pl`: strings.Repeat(`0123456789abcdef`, 9000), `pm`: map[string]interface{}{}, `pa`: []interface{}{}}
	switch kind {
	case `data_hash`:
		m := map[string]interface{}{}
		for _, k := range []string{`p0`, `p1`, `p2`, `ph`} {
			m[k] = id + `|` + k
		}
		m[`ph`] = map[string]interface{}{`a`: id, `n`: 7}
		m[`pu`], m[`pl`], m[`pf`] = special[`pu`], special[`pl`], false
		return 200, jsonText(m)
	}
	if kind == `data_dig` {
		key = strings.TrimSuffix(strings.TrimPrefix(key, `["`), `"]`)
	}
	if v, ok := special[key]; ok {
		return 200, jsonText(v)
	}
	if key == `ph` {
		return 200, jsonText(map[string]interface{}{`a`: id, `l`: []interface{}{1, id}})
	}
	return 200, jsonText(id)
}

func (pl *Plugin) start(n int) *StartB {
	if len(pl.Starts) == 0 {
		return &StartB{}
	}
	if n >= len(pl.Starts) {
		n = len(pl.Starts) - 1
	}
	return pl.Starts[n]
}

func (pl *Plugin) install(x *Exec, path string) {
	x.W.FS.Put(path, `#!program`)
	x.W.Programs[path] = &world.Program{Main: func(p *world.Proc) { pl.main(x, p, pl.start(p.N)) }}
}

func ms(n int) time.Duration { return time.Duration(n) * time.Millisecond }

func (pl *Plugin) main(x *Exec, p *world.Proc, b *StartB) {
	rec := &PlugRec{P: p, Path: p.Path, B: b}
	for _, o := range x.W.Procs {
		if o != p && o.Path == p.Path && !o.Exited {
			rec.Others++
		}
	}
	p.Hold = ms(b.HoldMs)
	x.Plug = append(x.Plug, rec)
	if p.Getenv(`HIERA_MAGIC_COOKIE`) != fmt.Sprint(uint64(hiera.MagicCookie)) {
		_, _ = p.Stderr.Write([]byte("no magic cookie\n"))
		p.Exit(1)
	}
	if b.Sig != `` {
		p.Notify(syscall.SIGINT)
		p.Notify(syscall.SIGTERM)
		p.Go(`signals`, func() {
			for {
				p.AwaitSignal()
				if b.Sig == `slow` {
					simrt.Sleep(ms(b.SigMs))
					p.Exit(0)
				}
			}
		})
	}
	if b.ExitMs > 0 {
		p.Go(`death`, func() {
			simrt.Sleep(ms(b.ExitMs) + 11)
			x.W.Count(`plugin:exit`)
			p.Exit(b.ExitStatus)
		})
	}
	write := func(o *Out) {
		pp := p.Stdout
		t := o.Text
		if o.Rep > 1 {
			t = strings.Repeat(t, o.Rep)
		}
		if o.On == `stderr` {
			pp = p.Stderr
			rec.Err = append(rec.Err, t...)
		}
		for bs := []byte(t); len(bs) > 0; {
			n := len(bs)
			if o.Chunk > 0 && n > o.Chunk {
				n = o.Chunk
			}
			_, _ = pp.Write(bs[:n])
			bs = bs[n:]
		}
		if o.Exit {
			x.W.Count(`plugin:exit after output`)
			p.Exit(b.ExitStatus)
		}
	}
	bySort := map[string][]*Out{}
	for _, o := range b.Output {
		if o.Early {
			write(o)
		} else {
			bySort[o.On] = append(bySort[o.On], o)
		}
	}
	network := p.Getenv(`HIERA_PLUGIN_TRANSPORT`)
	addr := fmt.Sprintf(`127.0.0.1:%d`, 10000+p.Pid)
	if network != `tcp` {
		network = `unix`
		addr = p.Getenv(`HIERA_PLUGIN_SOCKET_DIR`) + fmt.Sprintf(`/%s-%d.socket`, p.Path[strings.LastIndexByte(p.Path, '/')+1:], p.Pid)
	}
	if network == `unix` && !x.W.FS.IsDir(p.Getenv(`HIERA_PLUGIN_SOCKET_DIR`)) {
		_, _ = p.Stderr.Write([]byte("no such socket directory\n"))
		p.Exit(1)
	}
	if !b.NoListen {
		p.Listen(network, addr, func(c *world.Conn) { pl.serve(x, rec, b, c) })
	}
	if b.GreetMs > 0 {
		simrt.Sleep(ms(b.GreetMs) + 13)
	}
	m := map[string]interface{}{`version`: hiera.ProtoVersion, `network`: network, `address`: addr, `functions`: pl.Funcs}
	g := ``
	tail := ``
	if b.Greet != `` {
		x.W.Count(`plugin:greet ` + b.Greet)
	}
	switch b.Greet {
	case ``:
		if network == `tcp` && x.Spec.N[`nonet`] > 0 {
			delete(m, `network`) // tcp is assumed
		}
		rec.Greeted = true
	case `none`:
	case `garbage`:
		g = "Segmentation fault\n"
	case `html`:
		g = "<html>{}</html>\n"
	case `partial`:
		bs, _ := json.Marshal(m)
		g = string(bs[:len(bs)*2/3])
	case `exit`:
		p.Exit(b.ExitStatus)
	case `partial-exit`:
		bs, _ := json.Marshal(m)
		_, _ = p.Stdout.Write(bs[:len(bs)/2])
		p.Exit(b.ExitStatus)
	case `close`:
		p.Stdout.CloseWrite()
	case `array`:
		g = "[1,2]\n"
	case `null`:
		g = "null\n"
	case `badversion`:
		m[`version`] = 99
	case `strversion`:
		m[`version`] = `one`
	case `noversion`:
		delete(m, `version`)
	case `noaddr`:
		delete(m, `address`)
	case `numaddr`:
		m[`address`] = 17
	case `nofuncs`:
		delete(m, `functions`)
	case `funcsarray`:
		m[`functions`] = []string{`a`}
	case `funcnames`:
		m[`functions`] = map[string]interface{}{`lookup_key`: `lk`}
	case `funcnums`:
		m[`functions`] = map[string]interface{}{`lookup_key`: []interface{}{1, 2}}
	case `funcnull`:
		m[`functions`] = map[string]interface{}{`lookup_key`: nil}
	default:
		x.S.Harness(`unknown greeting ` + b.Greet)
	}
	if g == `` && b.Greet != `none` && b.Greet != `close` {
		bs, _ := json.Marshal(m)
		g = string(bs) + "\n"
	}
	if b.Pieces {
		for i := 0; i < len(g); i += 1 + len(g)/5 {
			e := i + 1 + len(g)/5
			if e > len(g) {
				e = len(g)
			}
			_, _ = p.Stdout.Write([]byte(g[i:e]))
			simrt.Sleep(17 * time.Millisecond)
		}
	} else if g != `` {
		_, _ = p.Stdout.Write([]byte(g + tail))
	}
	if b.Greet == `close` {
		p.Stdout.CloseWrite()
	}
	for _, on := range sortedKeys(bySort) {
		on := on
		rec.outs++
		p.Go(on, func() {
			for _, o := range bySort[on] {
				if o.AtMs > 0 {
					simrt.Sleep(ms(o.AtMs))
				}
				write(o)
			}
			rec.outs--
		})
	}
	var q simrt.WaitQ
	q.Wait(`end of plugin`)
}

// serve serves one connection as net/http does.
func (pl *Plugin) serve(x *Exec, rec *PlugRec, b *StartB, c *world.Conn) {
	br := bufio.NewReader(c)
	for {
		req, err := http.ReadRequest(br)
		if err != nil {
			return
		}
		rec.ncall++
		if !pl.answer(x, rec, b, c, req, rec.ncall) || req.Close {
			return
		}
	}
}

func (pl *Plugin) answer(x *Exec, rec *PlugRec, b *StartB, c *world.Conn, req *http.Request, n int) bool {
	parts := strings.Split(strings.TrimPrefix(req.URL.Path, `/`), `/`)
	q := req.URL.Query()
	cr := &CallRec{At: x.S.Now(), Seq: x.S.Seq(), Key: q.Get(`key`), Opts: q.Get(`options`)}
	if len(parts) == 2 {
		cr.Kind, cr.Fn = parts[0], parts[1]
	}
	if o, ok := canonJSON(cr.Opts); ok {
		cr.Opts = o
	}
	var om map[string]interface{}
	_ = json.Unmarshal([]byte(cr.Opts), &om)
	cr.ID, _ = om[`id`].(string)
	rec.Calls = append(rec.Calls, cr)
	x.S.Eventf(`plugin call %s`, req.URL.String())
	code, body := 404, "404 page not found\n"
	for _, f := range pl.Funcs[cr.Kind] {
		if f == cr.Fn {
			code, body = echo(rec.Path, cr.Kind, cr.Fn, cr.Key, cr.Opts)
		}
	}
	cr.Code, cr.Len = code, len(body)
	send := func(code int, ct, body string, length int) {
		h := fmt.Sprintf("HTTP/1.1 %d %s\r\nContent-Type: %s\r\nContent-Length: %d\r\n\r\n", code, http.StatusText(code), ct, length)
		_, _ = c.Write([]byte(h))
		_, _ = c.Write([]byte(body))
	}
	ct := `application/json`
	if code != 200 {
		ct = `text/plain; charset=utf-8`
	}
	if cb := b.call(n); cb != nil {
		cr.Did = cb.Do
		x.W.Count(`plugin:call ` + cb.Do)
		switch cb.Do {
		case `slow`:
			simrt.Sleep(ms(cb.Ms) + 19)
		case `reset`:
			c.Reset()
			return false
		case `close`:
			return false
		case `hang`:
			for !c.PeerClosed() {
				simrt.Sleep(500 * time.Millisecond)
			}
			return false
		case `hangbody`:
			_, _ = c.Write([]byte(fmt.Sprintf("HTTP/1.1 %d OK\r\nContent-Type: %s\r\nContent-Length: %d\r\n\r\n", code, ct, len(body)+9)))
			_, _ = c.Write([]byte(body))
			for !c.PeerClosed() {
				simrt.Sleep(500 * time.Millisecond)
			}
			return false
		case `drip`:
			_, _ = c.Write([]byte(fmt.Sprintf("HTTP/1.1 %d OK\r\nContent-Type: %s\r\nContent-Length: %d\r\n\r\n", code, ct, len(body))))
			for i, k := 0, 1+len(body)/20; i < len(body) && !c.PeerClosed(); i += k {
				if i+k > len(body) {
					k = len(body) - i
				}
				if _, err := c.Write([]byte(body[i : i+k])); err != nil {
					return false
				}
				simrt.Sleep(ms(cb.Ms))
			}
			return true
		case `truncate`:
			send(code, ct, body[:len(body)/2], len(body))
			return false
		case `truncreset`:
			send(code, ct, body[:len(body)/2], len(body))
			simrt.Sleep(ms(cb.Ms))
			c.Reset()
			return false
		case `cuthead`:
			_, _ = c.Write([]byte("HTTP/1.1 200 OK\r\nContent-Ty"))
			return false
		case `chunkcut`:
			_, _ = c.Write([]byte("HTTP/1.1 200 OK\r\nContent-Type: application/json\r\nTransfer-Encoding: chunked\r\n\r\n" +
				fmt.Sprintf("%x\r\n%s\r\n", len(body), body)))
			return false
		case `chunked`:
			k := len(body) / 2
			_, _ = c.Write([]byte(fmt.Sprintf("HTTP/1.1 %d X\r\nTransfer-Encoding: chunked\r\n\r\n%x\r\n%s\r\n%x\r\n%s\r\n0\r\n\r\n", code, k, body[:k], len(body)-k, body[k:])))
			return true
		case `eofbody`:
			_, _ = c.Write([]byte(fmt.Sprintf("HTTP/1.0 %d OK\r\n\r\n%s", code, body)))
			return false
		case `trailing`:
			send(200, ct, strings.TrimSpace(body)+` junk`, len(strings.TrimSpace(body))+5)
			return true
		case `two`:
			b := jsonText(`other`)
			send(200, ct, body+b, len(body)+len(b))
			return true
		case `302`:
			_, _ = c.Write([]byte("HTTP/1.1 302 Found\r\nContent-Length: 0\r\n\r\n"))
			return true
		case `206`:
			send(206, ct, body, len(body))
			return true
		case `201`:
			send(201, ct, `"made"`, 6)
			return true
		case `410`:
			send(410, `text/plain`, "gone\n", 5)
			return true
		case `500`:
			send(500, `text/plain`, "boom\n", 5)
			return true
		case `500empty`:
			send(500, `text/plain`, ``, 0)
			return true
		case `400json`:
			send(400, ct, body, len(body))
			return true
		case `503`:
			send(503, `text/plain`, ``, 0)
			return true
		case `400`:
			send(400, `text/plain`, "bad\n", 4)
			return true
		case `204`:
			_, _ = c.Write([]byte("HTTP/1.1 204 No Content\r\n\r\n"))
			return true
		case `empty`:
			send(200, ct, ``, 0)
			return true
		case `badjson`:
			send(200, ct, `{"a":`, 5)
			return true
		case `notjson`:
			send(200, ct, `<html>hi`, 8)
			return true
		case `garbage`:
			_, _ = c.Write([]byte("\x00\x01SSH-2.0-what\r\n\r\n"))
			return false
		case `500trunc`:
			send(500, `text/plain`, "boom\n", 50)
			return false
		case `crash`:
			rec.P.Exit(134)
		case `crashbody`:
			send(code, ct, body[:len(body)/2], len(body))
			rec.P.Exit(134)
		default:
			x.S.Harness(`unknown call behaviour ` + cb.Do)
		}
	}
	cr.Done = true
	send(code, ct, body, len(body))
	return true
}

// errWritten is what the process really got out on its standard error.
func (r *PlugRec) errWritten() []byte {
	n := r.P.Stderr.Written
	if n > len(r.Err) {
		n = len(r.Err)
	}
	return r.Err[:n]
}

// running lists the processes that have not been reaped.
func (x *Exec) procs(f func(p *world.Proc) bool) (n int) {
	for _, p := range x.W.Procs {
		if f(p) {
			n++
		}
	}
	return
}

func query(kv ...string) url.Values {
	v := url.Values{}
	for i := 0; i+1 < len(kv); i += 2 {
		v.Add(kv[i], kv[i+1])
	}
	return v
}
