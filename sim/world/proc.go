package world

import (
	"errors"
	"io"
	"os"
	"runtime"
	"syscall"
	"time"

	"simkit/simrt"
)

// Program is what an executable does when started.
type Program struct {
	Main func(p *Proc)
}

// Proc is a simulated process.
type Proc struct {
	w         *World
	Pid       int
	Path      string
	Args      []string
	Env       []string
	Stdout    *Pipe
	Stderr    *Pipe
	Exited    bool
	Reaped    bool
	Status    int // exit code, or -signal
	exitQ     simrt.WaitQ
	tasks     []*simrt.Task
	handled   map[syscall.Signal]bool
	pending   []syscall.Signal
	sigQ      simrt.WaitQ
	listeners []*Listener
	conns     []*Conn
	N         int // how many processes of this path were started before
	StartedAt time.Duration
	ExitedAt  time.Duration
	ReapedAt  time.Duration
	Signals   []SigRec
	WaitErrs  int
	By        *simrt.Task // who started it
	Seq       int         // when it was started
	EndSeq    int         // when it ended
	// Hold keeps the pipes open for the given time after the end, as a process does that this one has left behind.
	Hold time.Duration
}

// SigRec is a signal that was sent.
type SigRec struct {
	Sig syscall.Signal
	At  time.Duration
}

// Start starts a process. stdout/stderr may be nil (discarded).
func (w *World) Start(path string, args, env []string, stdout, stderr *Pipe) (*Proc, error) {
	simrt.YieldIO(`exec ` + path)
	w.Count(`op:exec`)
	if ft := w.fault(`exec`, path); ft != nil {
		return nil, &os.PathError{Op: `fork/exec`, Path: path, Err: Errno(ft.Kind)}
	}
	prog := w.Programs[path]
	if prog == nil {
		return nil, &os.PathError{Op: `fork/exec`, Path: path, Err: syscall.ENOENT}
	}
	w.nextPid++
	p := &Proc{w: w, Pid: w.nextPid, Path: path, Args: args, Env: env, Stdout: stdout, Stderr: stderr, handled: map[syscall.Signal]bool{},
		StartedAt: w.S.Now(), By: simrt.Cur(), Seq: w.S.Seq()}
	for _, o := range w.Procs {
		if o.Path == path {
			p.N++
		}
	}
	w.Procs = append(w.Procs, p)
	for _, pp := range []*Pipe{stdout, stderr} {
		if pp != nil {
			pp.writers++
			pp.proc = p
		}
	}
	w.S.Eventf(`exec %s -> pid %d`, path, p.Pid)
	p.Go(`main`, func() {
		prog.Main(p)
		p.Exit(0)
	})
	simrt.YieldIO(`exec done ` + path)
	return p, nil
}

// Go starts a thread of the process.
func (p *Proc) Go(name string, f func()) {
	if p.Exited {
		return
	}
	t := simrt.GoEnv(`proc`+itoa(p.Pid)+`.`+name, f)
	p.tasks = append(p.tasks, t)
}

func itoa(n int) string {
	if n == 0 {
		return `0`
	}
	s := ``
	for ; n > 0; n /= 10 {
		s = string(rune('0'+n%10)) + s
	}
	return s
}

// Getenv reads the process's own environment.
func (p *Proc) Getenv(k string) string {
	v := ``
	for _, e := range p.Env {
		if len(e) > len(k) && e[len(k)] == '=' && e[:len(k)] == k {
			v = e[len(k)+1:]
		}
	}
	return v
}

// Exit ends the process: its threads stop where they are, its descriptors close, and it becomes a zombie.
func (p *Proc) Exit(status int) {
	if !p.Exited {
		p.Exited = true
		p.Status = status
		p.ExitedAt = p.w.S.Now()
		p.EndSeq = p.w.S.Seq()
		p.w.S.Eventf(`pid %d exits with %d`, p.Pid, status)
		for _, l := range p.listeners {
			l.closed = true
		}
		for _, c := range p.conns {
			c.peerGone(status != 0)
		}
		for _, pp := range []*Pipe{p.Stdout, p.Stderr} {
			if pp == nil {
				continue
			}
			if pp := pp; p.Hold > 0 {
				simrt.GoEnv(`orphan`+itoa(p.Pid), func() { simrt.Sleep(p.Hold); pp.closeWriter() })
			} else {
				pp.closeWriter()
			}
		}
		p.exitQ.WakeAll()
		for _, t := range p.tasks {
			if t != simrt.Cur() {
				t.Kill()
			}
		}
	}
	for _, t := range p.tasks {
		if t == simrt.Cur() {
			runtime.Goexit()
		}
	}
}

// Notify makes the process handle a signal itself.
func (p *Proc) Notify(sig syscall.Signal) { p.handled[sig] = true }

// AwaitSignal blocks the calling thread of the process until a handled signal arrives.
func (p *Proc) AwaitSignal() syscall.Signal {
	for len(p.pending) == 0 {
		p.sigQ.Wait(`signal`)
	}
	s := p.pending[0]
	p.pending = p.pending[1:]
	return s
}

// Signal delivers a signal.
func (p *Proc) Signal(sig syscall.Signal) error {
	simrt.YieldIO(`kill`)
	if p.Reaped {
		return os.ErrProcessDone
	}
	if ft := p.w.fault(`signal`, p.Path); ft != nil {
		return os.NewSyscallError(`kill`, Errno(ft.Kind))
	}
	p.w.Count(`op:signal:` + sig.String())
	p.Signals = append(p.Signals, SigRec{sig, p.w.S.Now()})
	p.w.S.Eventf(`signal %s to pid %d`, sig, p.Pid)
	if p.Exited || sig == 0 {
		return nil
	}
	if sig != syscall.SIGKILL && p.handled[sig] {
		p.pending = append(p.pending, sig)
		p.sigQ.WakeAll()
	} else {
		p.Exit(-int(sig))
	}
	simrt.YieldIO(`kill done`)
	return nil
}

// Wait is waitpid(2).
func (p *Proc) Wait() error {
	simrt.YieldIO(`waitpid`)
	for !p.Exited {
		p.exitQ.Wait(`exit of pid ` + itoa(p.Pid) + ` ` + p.Path)
	}
	if p.Reaped {
		p.WaitErrs++
		return os.NewSyscallError(`wait`, syscall.ECHILD)
	}
	p.Reaped = true
	p.ReapedAt = p.w.S.Now()
	p.w.S.Eventf(`pid %d reaped`, p.Pid)
	return nil
}

// AwaitExit blocks until the process has ended, without reaping it.
func (p *Proc) AwaitExit(d time.Duration) bool {
	end := p.w.S.Now() + d
	for !p.Exited && p.w.S.Now() < end {
		p.exitQ.WaitOn(`exit`, nil, end-p.w.S.Now())
	}
	return p.Exited
}

const pipeCap = 65536

// Pipe is a pipe(2).
type Pipe struct {
	w        *World
	name     string
	buf      []byte
	writers  int
	wclosed  bool
	rclosed  bool
	rq, wq   simrt.WaitQ
	proc     *Proc
	off      int
	MaxBuf   int
	Blocked  int // how often a writer found the pipe full
	Written  int
	ReadDone bool // the reader saw EOF
}

// NewPipe creates a pipe.
func (w *World) NewPipe(name string) *Pipe { return &Pipe{w: w, name: name} }

// Read reads from the pipe.
func (p *Pipe) Read(b []byte) (int, error) {
	simrt.YieldIO(`read ` + p.name)
	for {
		if p.rclosed {
			return 0, &os.PathError{Op: `read`, Path: `|0`, Err: os.ErrClosed}
		}
		if ft := p.w.readFault(p.name, p.off); ft != nil && ft.Kind != `short` {
			return 0, &os.PathError{Op: `read`, Path: `|0`, Err: Errno(ft.Kind)}
		}
		if len(p.buf) > 0 {
			break
		}
		if p.wclosed {
			p.ReadDone = true
			return 0, io.EOF
		}
		p.rq.Wait(`pipe ` + p.name)
	}
	if len(b) == 0 {
		return 0, nil
	}
	n := len(p.buf)
	if n > len(b) {
		n = len(b)
	}
	if n > 1 {
		switch simrt.Choose(6, `pipe read size`) {
		case 1:
			n = 1
		case 2:
			n = (n + 1) / 2
		}
	}
	copy(b, p.buf[:n])
	p.buf = p.buf[n:]
	p.off += n
	p.wq.WakeAll()
	return n, nil
}

// Close closes the read end.
func (p *Pipe) Close() error {
	simrt.YieldIO(`close ` + p.name)
	if p.rclosed {
		return &os.PathError{Op: `close`, Path: `|0`, Err: os.ErrClosed}
	}
	p.rclosed = true
	p.rq.WakeAll()
	p.wq.WakeAll()
	return nil
}

// Write writes from a process into the pipe, blocking while it is full.
func (p *Pipe) Write(b []byte) (int, error) {
	total := 0
	for len(b) > 0 {
		if p.rclosed {
			if p.proc != nil {
				p.proc.Exit(-int(syscall.SIGPIPE))
			}
			return total, syscall.EPIPE
		}
		room := pipeCap - len(p.buf)
		if room == 0 {
			p.Blocked++
			p.w.Count(`pipe:full`)
			p.wq.Wait(`room in pipe ` + p.name)
			continue
		}
		n := len(b)
		if n > room {
			n = room
		}
		p.buf = append(p.buf, b[:n]...)
		if len(p.buf) > p.MaxBuf {
			p.MaxBuf = len(p.buf)
		}
		p.Written += n
		total += n
		b = b[n:]
		p.rq.WakeAll()
		simrt.YieldIO(`write ` + p.name)
	}
	return total, nil
}

func (p *Pipe) closeWriter() {
	p.wclosed = true
	p.rq.WakeAll()
}

// Closed tells if the read end has been closed.
func (p *Pipe) Closed() bool { return p.rclosed }

// CloseWrite closes the write end while the process lives on.
func (p *Pipe) CloseWrite() { p.closeWriter() }

var errNotStarted = errors.New(`exec: not started`)

// ExitedBefore tells if the process had ended before the given time.
func (p *Proc) ExitedBefore(t time.Duration) bool { return p.Exited && p.ExitedAt < t }

// Died tells if the process ended without having been told to.
func (p *Proc) Died() bool {
	return p.Exited && p.Status >= 0 && (len(p.Signals) == 0 || p.ExitedAt <= p.Signals[0].At)
}
