// Package simexec stands in for package os/exec.
package simexec

import (
	"bytes"
	"context"
	"errors"
	"io"
	"strings"
	"syscall"
	"time"

	"simkit/facade/simos"
	"simkit/simrt"
	"simkit/world"
)

// ExitError as in os/exec.
type ExitError struct {
	*simos.ProcessState
	Stderr []byte
}

func (e *ExitError) Error() string { return e.ProcessState.String() }

// Cmd as in os/exec.
type Cmd struct {
	Path         string
	Args         []string
	Env          []string
	Dir          string
	Stdin        io.Reader
	Stdout       io.Writer
	Stderr       io.Writer
	ExtraFiles   []*simos.File
	SysProcAttr  *syscall.SysProcAttr
	Process      *simos.Process
	ProcessState *simos.ProcessState
	Err          error
	Cancel       func() error
	WaitDelay    time.Duration

	ctx      context.Context
	out, err *world.Pipe
	outPipe  bool
	errPipe  bool
	started  bool
	waited   bool
	copies   int
	copyQ    simrt.WaitQ
	copyErr  error
	stopCtx  chan struct{}
}

func Command(name string, arg ...string) *Cmd {
	c := &Cmd{Path: name, Args: append([]string{name}, arg...)}
	if !strings.Contains(name, `/`) {
		if p, err := LookPath(name); err != nil {
			c.Err = err
		} else {
			c.Path = p
		}
	}
	return c
}

func CommandContext(ctx context.Context, name string, arg ...string) *Cmd {
	if ctx == nil {
		panic("nil Context")
	}
	c := Command(name, arg...)
	c.ctx = ctx
	c.Cancel = func() error { return c.Process.Kill() }
	return c
}

func LookPath(file string) (string, error) {
	if strings.Contains(file, `/`) {
		if world.W.Programs[file] != nil {
			return file, nil
		}
		return ``, &Error{Name: file, Err: ErrNotFound}
	}
	for p := range world.W.Programs {
		if strings.HasSuffix(p, `/`+file) && (strings.HasPrefix(p, `/usr/bin/`) || strings.HasPrefix(p, `/bin/`)) {
			return p, nil
		}
	}
	return ``, &Error{Name: file, Err: ErrNotFound}
}

func (c *Cmd) String() string    { return strings.Join(c.Args, ` `) }
func (c *Cmd) Environ() []string { return c.env() }

func (c *Cmd) env() []string {
	if c.Env == nil {
		return simos.Environ()
	}
	return c.Env
}

func (c *Cmd) StdoutPipe() (io.ReadCloser, error) {
	if c.Stdout != nil || c.outPipe {
		return nil, errors.New("exec: Stdout already set")
	}
	if c.started {
		return nil, errors.New("exec: StdoutPipe after process started")
	}
	if err := world.W.PipeFault(c.Path, `stdout`); err != nil {
		return nil, err
	}
	c.outPipe = true
	c.out = world.W.NewPipe(c.Path + `:stdout`)
	return c.out, nil
}

func (c *Cmd) StderrPipe() (io.ReadCloser, error) {
	if c.Stderr != nil || c.errPipe {
		return nil, errors.New("exec: Stderr already set")
	}
	if c.started {
		return nil, errors.New("exec: StderrPipe after process started")
	}
	if err := world.W.PipeFault(c.Path, `stderr`); err != nil {
		return nil, err
	}
	c.errPipe = true
	c.err = world.W.NewPipe(c.Path + `:stderr`)
	return c.err, nil
}

type nopPipe struct{}

func (nopPipe) Write(b []byte) (int, error) { return len(b), nil }
func (nopPipe) Close() error                { return nil }

func (c *Cmd) StdinPipe() (io.WriteCloser, error) { return nopPipe{}, nil }

func (c *Cmd) closePipes() {
	for _, p := range []*world.Pipe{c.out, c.err} {
		if p != nil {
			_ = p.Close()
		}
	}
}

func (c *Cmd) Start() error {
	if c.Err != nil {
		c.closePipes()
		return c.Err
	}
	if c.started {
		return errors.New("exec: already started")
	}
	if c.ctx != nil {
		select {
		case <-c.ctx.Done():
			c.closePipes()
			return c.ctx.Err()
		default:
		}
	}
	c.started = true
	var cps []func()
	mk := func(name string, w io.Writer) *world.Pipe {
		p := world.W.NewPipe(c.Path + `:` + name)
		c.copies++
		cps = append(cps, func() {
			_, err := io.Copy(w, struct{ io.Reader }{p})
			_ = p.Close()
			if err != nil && c.copyErr == nil {
				c.copyErr = err
			}
			c.copies--
			c.copyQ.WakeAll()
		})
		return p
	}
	if f, ok := c.Stdout.(*simos.File); c.Stdout != nil {
		if ok && f == nil {
			return errors.New(`exec: nil file`)
		}
		c.out = mk(`stdout`, c.Stdout)
	}
	if c.Stderr != nil {
		if c.Stderr == c.Stdout && c.out != nil {
			c.err = c.out
		} else {
			c.err = mk(`stderr`, c.Stderr)
		}
	}
	p, err := world.W.Start(c.Path, c.Args, c.env(), c.out, c.err)
	if err != nil {
		c.closePipes()
		return err
	}
	c.Process = &simos.Process{Pid: p.Pid, P: p}
	for _, f := range cps {
		simrt.Go(`exec.copy`, f)
	}
	if c.ctx != nil && c.ctx.Done() != nil {
		c.stopCtx = make(chan struct{})
		simrt.Go(`exec.watch`, func() {
			i, _, _ := simrt.Select(false, simrt.CaseRecv(c.ctx.Done()), simrt.CaseRecv(c.stopCtx))
			if i == 0 && c.Cancel != nil {
				_ = c.Cancel()
			}
		})
	}
	return nil
}

func (c *Cmd) Wait() error {
	if c.Process == nil {
		return errors.New("exec: not started")
	}
	if c.waited {
		return errors.New("exec: Wait was already called")
	}
	c.waited = true
	st, err := c.Process.Wait()
	c.ProcessState = st
	if c.stopCtx != nil {
		close(c.stopCtx)
	}
	if c.copies > 0 {
		for c.copies > 0 {
			if !c.copyQ.WaitOn(`exec copy`, nil, c.WaitDelay) && c.WaitDelay > 0 && c.copies > 0 {
				break
			}
		}
	}
	c.closePipes()
	if err != nil {
		return err
	}
	if c.ctx != nil && c.ctx.Err() != nil && !st.Success() {
		return c.ctx.Err()
	}
	if !st.Success() {
		return &ExitError{ProcessState: st}
	}
	return c.copyErr
}

func (c *Cmd) Run() error {
	if err := c.Start(); err != nil {
		return err
	}
	return c.Wait()
}

func (c *Cmd) Output() ([]byte, error) {
	var b bytes.Buffer
	c.Stdout = &b
	err := c.Run()
	return b.Bytes(), err
}

func (c *Cmd) CombinedOutput() ([]byte, error) {
	var b bytes.Buffer
	c.Stdout = &b
	c.Stderr = &b
	err := c.Run()
	return b.Bytes(), err
}
