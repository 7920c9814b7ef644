package world

import (
	"io"
	"net"
	"net/http"
	"os"
	"syscall"
	"time"

	"simkit/simrt"
)

// DialPlan says what happens to one connection.
type DialPlan struct {
	DelayMs int
	Refuse  bool
	Hang    bool // the SYN is dropped
}

// Listener is a listening socket of a simulated process.
type Listener struct {
	proc    *Proc
	Network string
	Addr    string
	closed  bool
	serve   func(c *Conn)
}

// Listen opens a listening socket; each connection is served by a new thread of the process.
func (p *Proc) Listen(network, addr string, serve func(c *Conn)) *Listener {
	l := &Listener{proc: p, Network: network, Addr: addr, serve: serve}
	p.w.Listeners[network+`|`+addr] = l
	p.listeners = append(p.listeners, l)
	return l
}

// Close stops listening.
func (l *Listener) Close() { l.closed = true }

// Addr is a socket address.
type Addr struct{ Net, Str string }

func (a Addr) Network() string { return a.Net }
func (a Addr) String() string  { return a.Str }

// half is one direction of a connection.
type half struct {
	buf    []byte
	fin    bool
	reset  bool
	q      simrt.WaitQ
	closed bool // the reading side has closed
}

// Conn is one end of a simulated connection.
type Conn struct {
	w        *World
	ID       int
	in, out  *half
	peer     *Conn
	closed   bool
	client   bool
	laddr    Addr
	raddr    Addr
	rdl, wdl time.Time
	Cancel   <-chan struct{} // aborts a blocked read
	OpenedAt time.Duration
	ClosedAt time.Duration
	// AutoClose makes this end close as soon as the peer does: an idle connection in a client's pool.
	AutoClose bool
}

// Park marks the connection as idle. It tells if the connection is still usable.
func (c *Conn) Park() bool {
	if c.closed || c.in.fin || c.in.reset || len(c.in.buf) > 0 {
		return false
	}
	c.AutoClose = true
	return true
}

func (c *Conn) peerClosed() {
	if p := c.peer; p.AutoClose && !p.closed {
		p.closed = true
		p.in.closed = true
		p.ClosedAt = c.w.S.Now()
		p.out.fin = true
		p.out.q.WakeAll()
	}
}

// Dial connects to a listener.
func (w *World) Dial(network, addr string, cancel <-chan struct{}, timeout time.Duration) (*Conn, error) {
	simrt.YieldIO(`dial ` + network)
	w.Count(`op:dial`)
	fail := func(err error) (*Conn, error) {
		return nil, &net.OpError{Op: `dial`, Net: network, Addr: Addr{network, addr}, Err: err}
	}
	if ft := w.fault(`dial`, addr); ft != nil {
		return fail(os.NewSyscallError(`connect`, Errno(ft.Kind)))
	}
	w.dials++
	if w.NetPlan != nil {
		if pl := w.NetPlan(w.dials, network, addr); pl != nil {
			if pl.Hang {
				w.Count(`fault:dial:hang`)
				w.Fired = append(w.Fired, FireRec{w.S.Seq(), `dial`, addr, `hang`, simrt.Cur(), w.S.Now()})
				var q simrt.WaitQ
				if timeout == 0 {
					timeout = 2 * time.Minute // the kernel gives up at some time
				}
				q.WaitOn(`connect`, cancel, timeout)
				select {
				case <-cancel:
					return fail(os.ErrDeadlineExceeded)
				default:
				}
				return fail(os.NewSyscallError(`connect`, syscall.ETIMEDOUT))
			}
			if pl.DelayMs > 0 {
				w.Count(`fault:dial:delay`)
				simrt.Sleep(time.Duration(pl.DelayMs)*time.Millisecond + 7)
			}
			if pl.Refuse {
				w.Count(`fault:dial:refuse`)
				w.Fired = append(w.Fired, FireRec{w.S.Seq(), `dial`, addr, `refuse`, simrt.Cur(), w.S.Now()})
				return fail(os.NewSyscallError(`connect`, syscall.ECONNREFUSED))
			}
		}
	}
	l := w.Listeners[network+`|`+addr]
	if l == nil || l.closed || l.proc.Exited {
		if network == `unix` && l == nil {
			return fail(os.NewSyscallError(`connect`, syscall.ENOENT))
		}
		return fail(os.NewSyscallError(`connect`, syscall.ECONNREFUSED))
	}
	a, b := &half{}, &half{}
	id := len(w.Conns)
	ca := Addr{network, `@client` + itoa(id)}
	c := &Conn{w: w, ID: id, in: a, out: b, client: true, laddr: ca, raddr: Addr{network, addr}, OpenedAt: w.S.Now()}
	s := &Conn{w: w, ID: id, in: b, out: a, laddr: Addr{network, addr}, raddr: ca}
	c.peer, s.peer = s, c
	w.Conns = append(w.Conns, c)
	l.proc.conns = append(l.proc.conns, s)
	w.S.Eventf(`conn %d opened to %s`, id, addr)
	l.proc.Go(`conn`+itoa(id), func() {
		l.serve(s)
		_ = s.Close()
	})
	simrt.YieldIO(`dial done`)
	return c, nil
}

func (c *Conn) Read(b []byte) (int, error) {
	simrt.YieldIO(`conn read`)
	for {
		if c.closed {
			return 0, &net.OpError{Op: `read`, Net: c.laddr.Net, Err: net.ErrClosed}
		}
		if len(c.in.buf) > 0 {
			n := len(c.in.buf)
			if n > len(b) {
				n = len(b)
			}
			if n > 1 && c.client && simrt.Choose(4, `segment`) == 1 {
				n = 1 + simrt.Choose(n-1, `segment size`)
				c.w.Count(`net:short-read`)
			}
			copy(b, c.in.buf[:n])
			c.in.buf = c.in.buf[n:]
			return n, nil
		}
		if c.in.reset {
			return 0, &net.OpError{Op: `read`, Net: c.laddr.Net, Err: os.NewSyscallError(`read`, syscall.ECONNRESET)}
		}
		if c.in.fin {
			return 0, io.EOF
		}
		d := time.Duration(0)
		if !c.rdl.IsZero() {
			if d = time.Until(c.rdl); d <= 0 {
				return 0, &net.OpError{Op: `read`, Net: c.laddr.Net, Err: os.ErrDeadlineExceeded}
			}
		}
		if c.Cancel != nil {
			select {
			case <-c.Cancel:
				return 0, &net.OpError{Op: `read`, Net: c.laddr.Net, Err: os.ErrDeadlineExceeded}
			default:
			}
		}
		c.in.q.WaitOn(`data on connection `+itoa(c.ID), c.Cancel, d)
	}
}

func (c *Conn) Write(b []byte) (int, error) {
	simrt.YieldIO(`conn write`)
	if c.closed {
		return 0, &net.OpError{Op: `write`, Net: c.laddr.Net, Err: net.ErrClosed}
	}
	if c.out.closed || c.out.reset {
		return 0, &net.OpError{Op: `write`, Net: c.laddr.Net, Err: os.NewSyscallError(`write`, syscall.EPIPE)}
	}
	c.out.buf = append(c.out.buf, b...)
	c.out.q.WakeAll()
	return len(b), nil
}

// Close closes this end.
func (c *Conn) Close() error {
	if c.closed {
		return &net.OpError{Op: `close`, Net: c.laddr.Net, Err: net.ErrClosed}
	}
	c.closed = true
	c.ClosedAt = c.w.S.Now()
	c.in.closed = true
	c.in.q.WakeAll()
	c.out.fin = true
	c.out.q.WakeAll()
	c.peerClosed()
	if c.client {
		c.w.S.Eventf(`conn %d closed by client`, c.ID)
	}
	simrt.YieldIO(`conn close`)
	return nil
}

// Closed tells if this end has been closed.
func (c *Conn) Closed() bool { return c.closed }

// Reset aborts the connection as a RST does: what is buffered at the other end is lost.
func (c *Conn) Reset() {
	c.closed = true
	c.in.closed = true
	c.out.reset = true
	c.out.buf = nil
	c.out.q.WakeAll()
	c.peerClosed()
}

// PeerClosed tells the serving side if the client has gone away.
func (c *Conn) PeerClosed() bool { return c.peer.closed }

func (c *Conn) peerGone(reset bool) {
	if c.closed {
		return
	}
	c.closed = true
	c.in.closed = true
	if reset {
		c.out.reset = true
	} else {
		c.out.fin = true
	}
	c.in.q.WakeAll()
	c.out.q.WakeAll()
	c.peerClosed()
}

func (c *Conn) LocalAddr() net.Addr                { return c.laddr }
func (c *Conn) RemoteAddr() net.Addr               { return c.raddr }
func (c *Conn) SetDeadline(t time.Time) error      { c.rdl, c.wdl = t, t; c.in.q.WakeAll(); return nil }
func (c *Conn) SetReadDeadline(t time.Time) error  { c.rdl = t; c.in.q.WakeAll(); return nil }
func (c *Conn) SetWriteDeadline(t time.Time) error { c.wdl = t; return nil }

// OpenConns counts client ends that are still open.
func (w *World) OpenConns() (n int) {
	for _, c := range w.Conns {
		if !c.closed {
			n++
		}
	}
	return
}

// HTTPServer is a listening HTTP server of the process under test.
type HTTPServer struct {
	Addr    string
	Handler http.Handler
	// WriteTimeout is the time after which net/http drops an answer
	WriteTimeout time.Duration
	stopped      error
	down         bool
	q            simrt.WaitQ
}

// ListenHTTP registers a server and blocks until it is stopped.
func (w *World) ListenHTTP(addr string, h http.Handler, track *HTTPServer) error {
	simrt.YieldIO(`listen`)
	if ft := w.fault(`listen`, addr); ft != nil {
		return &net.OpError{Op: `listen`, Net: `tcp`, Err: os.NewSyscallError(`bind`, Errno(ft.Kind))}
	}
	s := track
	s.Addr, s.Handler = addr, h
	w.Servers = append(w.Servers, s)
	w.ServerQ.WakeAll()
	for !s.down {
		s.q.Wait(`accept`)
	}
	return s.stopped
}

// Stop makes ListenHTTP return with the given error.
func (s *HTTPServer) Stop(err error) {
	s.down = true
	s.stopped = err
	s.q.WakeAll()
}

// AwaitServer blocks until a server listens.
func (w *World) AwaitServer() *HTTPServer {
	for len(w.Servers) == 0 {
		w.ServerQ.Wait(`server start`)
	}
	return w.Servers[0]
}
