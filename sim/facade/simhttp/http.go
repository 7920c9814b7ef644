// Package simhttp stands in for package net/http. The client and all message parsing are the real ones; the
// transport under the client and the server's listener are simulated.
package simhttp

import (
	"bufio"
	"context"
	"crypto/tls"
	"errors"
	"io"
	"log"
	std "net/http"
	"net/url"
	"sync"
	"time"

	"simkit/facade/simnet"
	"simkit/simrt"
	"simkit/world"
)

// Transport as in net/http.
type Transport struct {
	Proxy                  func(*Request) (*url.URL, error)
	OnProxyConnectResponse func(ctx context.Context, proxyURL *url.URL, connectReq *Request, connectRes *Response) error
	DialContext            func(ctx context.Context, network, addr string) (simnet.Conn, error)
	Dial                   func(network, addr string) (simnet.Conn, error)
	DialTLSContext         func(ctx context.Context, network, addr string) (simnet.Conn, error)
	DialTLS                func(network, addr string) (simnet.Conn, error)
	TLSClientConfig        *tls.Config
	TLSHandshakeTimeout    time.Duration
	DisableKeepAlives      bool
	DisableCompression     bool
	MaxIdleConns           int
	MaxIdleConnsPerHost    int
	MaxConnsPerHost        int
	IdleConnTimeout        time.Duration
	ResponseHeaderTimeout  time.Duration
	ExpectContinueTimeout  time.Duration
	MaxResponseHeaderBytes int64
	WriteBufferSize        int
	ReadBufferSize         int
	ForceAttemptHTTP2      bool

	idle map[string][]*pconn
}

type pconn struct {
	c      simnet.Conn
	wc     *world.Conn
	br     *bufio.Reader
	key    string
	reused bool
	dead   bool
}

func (t *Transport) Clone() *Transport { c := *t; c.idle = nil; return &c }

func (t *Transport) CloseIdleConnections() {
	for k, ls := range t.idle {
		delete(t.idle, k)
		for _, p := range ls {
			p.dead = true
			_ = p.c.Close()
		}
	}
}

func (t *Transport) CancelRequest(*Request) {}

func (t *Transport) getIdle(key string) *pconn {
	for ls := t.idle[key]; len(ls) > 0; ls = t.idle[key] {
		p := ls[len(ls)-1]
		t.idle[key] = ls[:len(ls)-1]
		if p.wc != nil {
			p.wc.AutoClose = false
			if p.wc.Closed() {
				continue
			}
		}
		p.reused = true
		return p
	}
	return nil
}

func (t *Transport) putIdle(p *pconn) {
	max := t.MaxIdleConnsPerHost
	if max == 0 {
		max = std.DefaultMaxIdleConnsPerHost
	}
	if t.DisableKeepAlives || max < 0 || len(t.idle[p.key]) >= max || p.wc == nil {
		_ = p.c.Close()
		return
	}
	if t.idle == nil {
		t.idle = map[string][]*pconn{}
	}
	if !p.wc.Park() {
		_ = p.c.Close()
		return
	}
	t.idle[p.key] = append(t.idle[p.key], p)
	if t.IdleConnTimeout > 0 {
		time.AfterFunc(t.IdleConnTimeout, func() {
			simrt.AdoptEnv(`idle timer`, func() {
				for i, x := range t.idle[p.key] {
					if x == p {
						t.idle[p.key] = append(t.idle[p.key][:i:i], t.idle[p.key][i+1:]...)
						_ = p.c.Close()
						return
					}
				}
			})
		})
	}
}

type dialRes struct {
	c   simnet.Conn
	err error
}

// RoundTrip sends a request and reads the head of its response.
func (t *Transport) RoundTrip(req *Request) (*Response, error) {
	if req.URL == nil || req.URL.Host == `` {
		return nil, errors.New("http: no Host in request URL")
	}
	if req.URL.Scheme != `http` {
		return nil, &badScheme{req.URL.Scheme}
	}
	cancel, release := mergeCancel(req)
	addr := req.URL.Host
	if req.URL.Port() == `` {
		addr += `:80`
	}
	key := addr
	for attempt := 0; ; attempt++ {
		p := t.getIdle(key)
		if p == nil {
			c, err := t.dial(req, addr, cancel)
			if err != nil {
				release()
				return nil, err
			}
			p = &pconn{c: c, key: key, br: bufio.NewReader(c)}
			p.wc, _ = c.(*world.Conn)
		}
		res, retry, err := t.exchange(p, req, cancel, release)
		if err != nil {
			_ = p.c.Close()
			if retry && p.reused && attempt < 3 && !cancelled(cancel) {
				continue
			}
			release()
			if cerr := req.Context().Err(); cerr != nil {
				err = cerr
			}
			return nil, err
		}
		return res, nil
	}
}

type badScheme struct{ s string }

func (b *badScheme) Error() string { return `unsupported protocol scheme "` + b.s + `"` }

func cancelled(c <-chan struct{}) bool {
	select {
	case <-c:
		return true
	default:
		return false
	}
}

// mergeCancel combines the ways a request can be cancelled.
func mergeCancel(req *Request) (<-chan struct{}, func()) {
	a, b := req.Context().Done(), req.Cancel
	if a == nil {
		return b, func() {}
	}
	if b == nil {
		return a, func() {}
	}
	m, stop := make(chan struct{}), make(chan struct{})
	var once sync.Once
	go func() {
		select {
		case <-a:
			close(m)
		case <-b:
			close(m)
		case <-stop:
		}
	}()
	return m, func() { once.Do(func() { close(stop) }) }
}

func (t *Transport) dial(req *Request, addr string, cancel <-chan struct{}) (simnet.Conn, error) {
	dial := func() (simnet.Conn, error) {
		switch {
		case t.DialContext != nil:
			return t.DialContext(req.Context(), `tcp`, addr)
		case t.Dial != nil:
			return t.Dial(`tcp`, addr)
		}
		return simnet.Dial(`tcp`, addr)
	}
	// As in the real transport, the dial goes on in the background if the request gives up first.
	var q simrt.WaitQ
	var res *dialRes
	gone := false
	simrt.GoEnv(`http.dial`, func() {
		c, err := dial()
		res = &dialRes{c, err}
		if gone {
			if c != nil {
				_ = c.Close()
			}
			return
		}
		q.WakeAll()
	})
	for res == nil {
		if cancelled(cancel) {
			gone = true
			if err := req.Context().Err(); err != nil {
				return nil, err
			}
			return nil, errors.New(`net/http: request canceled while waiting for connection`)
		}
		q.WaitOn(`http dial`, cancel, 0)
	}
	return res.c, res.err
}

func (t *Transport) exchange(p *pconn, req *Request, cancel <-chan struct{}, release func()) (*Response, bool, error) {
	if p.wc != nil {
		p.wc.Cancel = cancel
	}
	r2 := req
	if t.DisableKeepAlives && !req.Close {
		c := *req
		c.Header = req.Header.Clone()
		c.Header.Set(`Connection`, `close`)
		r2 = &c
	}
	bw := bufio.NewWriter(p.c)
	err := r2.Write(bw)
	if err == nil {
		err = bw.Flush()
	}
	if err != nil {
		return nil, true, err
	}
	if t.ResponseHeaderTimeout > 0 {
		_ = p.c.SetReadDeadline(time.Now().Add(t.ResponseHeaderTimeout))
	}
	if _, err = p.br.Peek(1); err != nil {
		if cancelled(cancel) {
			err = errors.New(`net/http: request canceled`)
		} else if err == io.EOF {
			if p.reused {
				err = errors.New(`http: server closed idle connection`)
			}
		}
		return nil, true, err
	}
	res, err := std.ReadResponse(p.br, req)
	for err == nil && res.StatusCode >= 100 && res.StatusCode < 200 && res.StatusCode != 101 {
		res, err = std.ReadResponse(p.br, req)
	}
	if err != nil {
		if cancelled(cancel) {
			err = errors.New(`net/http: request canceled`)
		}
		return nil, false, err
	}
	if t.ResponseHeaderTimeout > 0 {
		_ = p.c.SetReadDeadline(time.Time{})
	}
	keep := !res.Close && !req.Close && !t.DisableKeepAlives
	b := &body{rc: res.Body, t: t, p: p, keep: keep, release: release, cancel: cancel}
	if res.ContentLength == 0 || req.Method == `HEAD` {
		b.finish(true)
		return res, false, nil
	}
	res.Body = b
	return res, false, nil
}

type body struct {
	rc      io.ReadCloser
	t       *Transport
	p       *pconn
	keep    bool
	done    bool
	err     error
	release func()
	cancel  <-chan struct{}
}

func (b *body) finish(clean bool) {
	if b.done {
		return
	}
	b.done = true
	b.release()
	if b.p.wc != nil {
		b.p.wc.Cancel = nil
	}
	if clean && b.keep && b.p.br.Buffered() == 0 {
		b.t.putIdle(b.p)
	} else {
		_ = b.p.c.Close()
	}
}

func (b *body) Read(bs []byte) (int, error) {
	if b.done {
		if b.err == nil {
			b.err = errors.New("http: read on closed response body")
		}
		return 0, b.err
	}
	n, err := b.rc.Read(bs)
	if err != nil {
		if err != io.EOF && cancelled(b.cancel) {
			err = errors.New(`net/http: request canceled (Client.Timeout or context cancellation while reading body)`)
		}
		b.err = err
		b.finish(err == io.EOF)
	}
	return n, err
}

func (b *body) Close() error {
	b.finish(false)
	return nil
}

var sharedTransport = &Transport{}

// ResetDefaults drops the state that outlives a simulation.
func ResetDefaults() { sharedTransport.idle = nil }

var (
	DefaultTransport RoundTripper = sharedTransport
	DefaultClient                 = &Client{Transport: DefaultTransport}
)

func init() { std.DefaultTransport = sharedTransport }

func Get(u string) (*Response, error)  { return DefaultClient.Get(u) }
func Head(u string) (*Response, error) { return DefaultClient.Head(u) }
func Post(u, ct string, body io.Reader) (*Response, error) {
	return DefaultClient.Post(u, ct, body)
}
func PostForm(u string, data url.Values) (*Response, error) { return DefaultClient.PostForm(u, data) }

// Server as in net/http.
type Server struct {
	Addr                         string
	Handler                      Handler
	DisableGeneralOptionsHandler bool
	TLSConfig                    *tls.Config
	ReadTimeout                  time.Duration
	ReadHeaderTimeout            time.Duration
	WriteTimeout                 time.Duration
	IdleTimeout                  time.Duration
	MaxHeaderBytes               int
	TLSNextProto                 map[string]func(*Server, *tls.Conn, Handler)
	ConnState                    func(simnet.Conn, ConnState)
	ErrorLog                     *log.Logger
	BaseContext                  func(simnet.Listener) context.Context
	ConnContext                  func(ctx context.Context, c simnet.Conn) context.Context

	w      world.HTTPServer
	onDown []func()
	closed bool
}

func (s *Server) ListenAndServe() error {
	if s.closed {
		return std.ErrServerClosed
	}
	h := s.Handler
	if h == nil {
		h = std.DefaultServeMux
	}
	s.w.WriteTimeout = s.WriteTimeout
	return world.W.ListenHTTP(s.Addr, h, &s.w)
}

func (s *Server) ListenAndServeTLS(certFile, keyFile string) error { return s.ListenAndServe() }

func (s *Server) RegisterOnShutdown(f func())    { s.onDown = append(s.onDown, f) }
func (s *Server) SetKeepAlivesEnabled(bool)      {}
func (s *Server) Close() error                   { s.closed = true; s.w.Stop(std.ErrServerClosed); return nil }
func (s *Server) Shutdown(context.Context) error { return s.Close() }
func (s *Server) Serve(simnet.Listener) error {
	panic(`simulated world: unsupported operation http.Server.Serve`)
}

func ListenAndServe(addr string, h Handler) error {
	return (&Server{Addr: addr, Handler: h}).ListenAndServe()
}

func ListenAndServeTLS(addr, c, k string, h Handler) error { return ListenAndServe(addr, h) }
