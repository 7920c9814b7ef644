// Package world is the simulated machine: file system, environment, processes, pipes, sockets, HTTP listeners.
// Every operation is a scheduling point, and every operation can be made to fail by the run's fault list.
package world

import (
	"fmt"
	"os"
	"sort"
	"strings"
	"syscall"
	"time"

	"simkit/simrt"
)

// Fault is one injected fault.
type Fault struct {
	Op   string `json:"op"`             // stat lstat open read readdir getwd exec pipe signal dial ...
	Path string `json:"path,omitempty"` // exact path, or empty for any
	Nth  int    `json:"nth,omitempty"`  // 1-based occurrence; 0: every one; negative: from that one on
	Kind string `json:"kind"`           // EIO EACCES EMFILE ENOENT short slow ...
	Off  int    `json:"off,omitempty"`  // bytes delivered before a read fault
	Ms   int    `json:"ms,omitempty"`   // delay for slow

	seen  int
	fired int
}

// Fired is how often the fault happened.
func (f *Fault) Fired() int { return f.fired }

// World is the machine of one run.
type World struct {
	S         *simrt.Sim
	FS        *FS
	Env       map[string]string
	Cwd       string
	Stdin     *Stdin
	Stdout    []byte
	Stderr    []byte
	Programs  map[string]*Program
	Procs     []*Proc
	Listeners map[string]*Listener
	Conns     []*Conn
	Servers   []*HTTPServer
	ServerQ   simrt.WaitQ
	Faults    []*Fault
	Stats     map[string]int
	Reads     []ReadRec
	Full      []ReadRec             // files read to their end
	Fired     []FireRec             // faults that made an operation fail
	OnOp      func(op, path string) // called when an operation on a file begins
	OpenFiles map[*File]bool
	NetPlan   func(n int, network, addr string) *DialPlan
	nextPid   int
	dials     int
	ExitCode  *int
}

// ReadRec records one complete or failed read of a file.
type ReadRec struct {
	Seq  int
	Path string
	Gen  int
	Task *simrt.Task
	Err  string
	Dir  bool
}

// FireRec records a fault that made an operation fail.
type FireRec struct {
	Seq            int
	Op, Path, Kind string
	By             *simrt.Task
	At             time.Duration
}

// Hit is the fault of an operation of a stub, if one is due.
func (w *World) Hit(op, path string) *Fault { return w.fault(op, path) }

// W is the current world.
var W *World

// New creates a world for a run.
func New(s *simrt.Sim) *World {
	w := &World{S: s, Env: map[string]string{}, Cwd: `/`, Programs: map[string]*Program{}, Listeners: map[string]*Listener{},
		Stats: map[string]int{}, nextPid: 1000, OpenFiles: map[*File]bool{}}
	w.FS = newFS(w)
	w.Stdin = &Stdin{w: w}
	W = w
	return w
}

// Stat counts something that happened.
func (w *World) Count(k string) { w.Stats[k]++ }

func (w *World) op(op, path string) {
	if w.OnOp != nil {
		w.OnOp(op, path)
	}
}

func (w *World) fault(op, path string) *Fault {
	w.op(op, path)
	var hit *Fault
	for _, f := range w.Faults {
		if f.Op != op || (f.Path != `` && f.Path != path) {
			continue
		}
		f.seen++
		if f.Nth == 0 || f.seen == f.Nth || (f.Nth < 0 && f.seen >= -f.Nth) {
			if hit == nil {
				hit = f
			}
		}
	}
	if hit != nil {
		if hit.Kind == `slow` {
			hit.fired++
			w.Count(`fault:` + op + `:slow`)
			w.S.Eventf(`fault slow %s %s`, op, path)
			simrt.Sleep(time.Duration(hit.Ms) * time.Millisecond)
			return nil
		}
		hit.fired++
		w.Count(`fault:` + op + `:` + hit.Kind)
		w.S.Eventf(`fault %s %s %s`, hit.Kind, op, path)
		w.Fired = append(w.Fired, FireRec{w.S.Seq(), op, path, hit.Kind, simrt.Cur(), w.S.Now()})
	}
	return hit
}

var errnos = map[string]syscall.Errno{
	`ENOENT`: syscall.ENOENT, `EACCES`: syscall.EACCES, `EIO`: syscall.EIO, `EMFILE`: syscall.EMFILE, `ENFILE`: syscall.ENFILE,
	`ENOTDIR`: syscall.ENOTDIR, `EISDIR`: syscall.EISDIR, `ENOMEM`: syscall.ENOMEM, `EAGAIN`: syscall.EAGAIN, `EPERM`: syscall.EPERM,
	`ELOOP`: syscall.ELOOP, `ESTALE`: syscall.ESTALE, `ENOSPC`: syscall.ENOSPC, `EPIPE`: syscall.EPIPE,
	`ECONNREFUSED`: syscall.ECONNREFUSED, `ECONNRESET`: syscall.ECONNRESET, `ENOEXEC`: syscall.ENOEXEC, `ETXTBSY`: syscall.ETXTBSY,
}

// Errno maps a fault kind to an errno.
func Errno(kind string) syscall.Errno {
	if e, ok := errnos[kind]; ok {
		return e
	}
	panic(`unknown errno ` + kind)
}

// Environ lists the environment.
func (w *World) Environ() []string {
	ls := make([]string, 0, len(w.Env))
	for k, v := range w.Env {
		ls = append(ls, k+`=`+v)
	}
	sort.Strings(ls)
	return ls
}

// FaultsFired sums the faults that actually happened, by operation and kind.
func (w *World) FaultsFired() map[string]int {
	m := map[string]int{}
	for k, n := range w.Stats {
		if strings.HasPrefix(k, `fault:`) {
			m[strings.TrimPrefix(k, `fault:`)] += n
		}
	}
	return m
}

// Leaks describes what the system under test has left behind.
func (w *World) ProcState() string {
	var ls []string
	for _, p := range w.Procs {
		ls = append(ls, p.String())
	}
	return strings.Join(ls, `; `)
}

func (p *Proc) String() string {
	st := `running`
	switch {
	case p.Reaped:
		st = fmt.Sprintf(`reaped(status %d)`, p.Status)
	case p.Exited:
		st = fmt.Sprintf(`zombie(status %d)`, p.Status)
	}
	return fmt.Sprintf(`pid %d %s %s`, p.Pid, p.Path, st)
}

// Getwd is getcwd(2).
func (w *World) Getwd() (string, error) {
	simrt.YieldIO(`getwd`)
	if ft := w.fault(`getwd`, w.Cwd); ft != nil {
		return ``, &os.SyscallError{Syscall: `getwd`, Err: Errno(ft.Kind)}
	}
	return w.Cwd, nil
}

// PipeFault is the failure of pipe(2), if one is due.
func (w *World) PipeFault(path, name string) error {
	simrt.YieldIO(`pipe`)
	if ft := w.fault(`pipe`, path+`:`+name); ft != nil {
		return &os.SyscallError{Syscall: `pipe2`, Err: Errno(ft.Kind)}
	}
	return nil
}

// HostExit records that the host process ended itself.
func (w *World) HostExit(code int) {
	if w.ExitCode == nil {
		w.ExitCode = &code
		w.S.Eventf(`host exits with %d`, code)
	}
}
