// Package simos stands in for package os: files, environment and processes are those of the simulated world.
package simos

import (
	"io/fs"
	std "os"
	"runtime"
	"syscall"
	"time"

	"simkit/simrt"
	"simkit/world"
)

// On tells if a simulated world is active.
func on() bool { return world.W != nil && simrt.Active() != nil }

// File is an open file.
type File = world.File

var (
	Stdin  = world.StdFile(3)
	Stdout = world.StdFile(1)
	Stderr = world.StdFile(2)
)

func unsup(op string) { panic(`simulated world: unsupported operation os.` + op) }

func Open(name string) (*File, error) {
	if !on() {
		unsup(`Open outside of a simulation`)
	}
	return world.W.FS.Open(name)
}

func OpenFile(name string, flag int, perm FileMode) (*File, error) {
	if flag&(std.O_WRONLY|std.O_RDWR|std.O_CREATE|std.O_TRUNC|std.O_APPEND) != 0 {
		unsup(`OpenFile for writing`)
	}
	return Open(name)
}

func ReadFile(name string) ([]byte, error) {
	if !on() {
		return std.ReadFile(name)
	}
	return world.W.FS.ReadFile(name)
}

func ReadDir(name string) ([]DirEntry, error) {
	if !on() {
		return std.ReadDir(name)
	}
	return world.W.FS.ReadDir(name)
}

func Stat(name string) (FileInfo, error) {
	if !on() {
		return std.Stat(name)
	}
	return world.W.FS.Stat(`stat`, name)
}

func Lstat(name string) (FileInfo, error) {
	if !on() {
		return std.Lstat(name)
	}
	return world.W.FS.Stat(`lstat`, name)
}

func Readlink(name string) (string, error) {
	return ``, &std.PathError{Op: `readlink`, Path: name, Err: syscall.EINVAL}
}

func Getwd() (string, error) {
	if !on() {
		return std.Getwd()
	}
	return world.W.Getwd()
}

func Chdir(dir string) error {
	if !on() {
		return std.Chdir(dir)
	}
	world.W.Cwd = dir
	return nil
}

func LookupEnv(k string) (string, bool) {
	if !on() {
		return std.LookupEnv(k)
	}
	simrt.YieldIO(`getenv`)
	v, ok := world.W.Env[k]
	return v, ok
}

func Getenv(k string) string { v, _ := LookupEnv(k); return v }

func Setenv(k, v string) error {
	if !on() {
		unsup(`Setenv outside of a simulation`)
	}
	world.W.Env[k] = v
	return nil
}

func Unsetenv(k string) error { delete(world.W.Env, k); return nil }

func Clearenv() { world.W.Env = map[string]string{} }

func Environ() []string {
	if !on() {
		return std.Environ()
	}
	simrt.YieldIO(`environ`)
	return world.W.Environ()
}

func ExpandEnv(s string) string { return std.Expand(s, Getenv) }

func TempDir() string {
	if !on() {
		return std.TempDir()
	}
	if v := Getenv(`TMPDIR`); v != `` {
		return v
	}
	return `/tmp`
}

func UserHomeDir() (string, error) {
	if v := Getenv(`HOME`); v != `` {
		return v, nil
	}
	return ``, std.ErrNotExist
}

func Getpid() int { return 1000 }

func Hostname() (string, error) { return `simhost`, nil }

// Exit ends the simulated host process.
func Exit(code int) {
	if !on() {
		std.Exit(code)
	}
	world.W.HostExit(code)
	runtime.Goexit()
}

// Process is a started process.
type Process struct {
	Pid int
	P   *world.Proc
}

// ProcessState is the result of waiting for a process.
type ProcessState struct{ p *world.Proc }

func (s *ProcessState) Pid() int      { return s.p.Pid }
func (s *ProcessState) Exited() bool  { return s.p.Status >= 0 }
func (s *ProcessState) Success() bool { return s.p.Status == 0 }
func (s *ProcessState) ExitCode() int {
	if s == nil || s.p.Status < 0 {
		return -1
	}
	return s.p.Status
}
func (s *ProcessState) Sys() interface{} {
	if s.p.Status < 0 {
		return syscall.WaitStatus(-s.p.Status)
	}
	return syscall.WaitStatus(s.p.Status << 8)
}
func (s *ProcessState) SysUsage() interface{}     { return nil }
func (s *ProcessState) SystemTime() time.Duration { return 0 }
func (s *ProcessState) UserTime() time.Duration   { return 0 }
func (s *ProcessState) String() string {
	if s == nil {
		return `<nil>`
	}
	if s.p.Status < 0 {
		return `signal: ` + syscall.Signal(-s.p.Status).String()
	}
	return `exit status ` + itoa(s.p.Status)
}

func itoa(n int) string {
	if n < 10 {
		return string(rune('0' + n))
	}
	return itoa(n/10) + string(rune('0'+n%10))
}

func (p *Process) Signal(sig Signal) error {
	if p == nil || p.P == nil {
		return std.ErrInvalid
	}
	s, ok := sig.(syscall.Signal)
	if !ok {
		return std.ErrInvalid
	}
	return p.P.Signal(s)
}
func (p *Process) Kill() error { return p.Signal(syscall.SIGKILL) }
func (p *Process) Wait() (*ProcessState, error) {
	if p == nil || p.P == nil {
		return nil, std.ErrInvalid
	}
	if err := p.P.Wait(); err != nil {
		return nil, err
	}
	return &ProcessState{p.P}, nil
}
func (p *Process) Release() error { return nil }

// ProcAttr as in package os.
type ProcAttr struct {
	Dir   string
	Env   []string
	Files []*File
	Sys   *syscall.SysProcAttr
}

func FindProcess(pid int) (*Process, error) {
	for _, p := range world.W.Procs {
		if p.Pid == pid {
			return &Process{pid, p}, nil
		}
	}
	return nil, std.ErrProcessDone
}

func StartProcess(name string, argv []string, attr *ProcAttr) (*Process, error) {
	unsup(`StartProcess`)
	return nil, nil
}

func Pipe() (r *File, w *File, err error)                     { unsup(`Pipe`); return }
func NewFile(fd uintptr, name string) *File                   { unsup(`NewFile`); return nil }
func Create(name string) (*File, error)                       { unsup(`Create`); return nil, nil }
func CreateTemp(dir, pattern string) (*File, error)           { unsup(`CreateTemp`); return nil, nil }
func MkdirTemp(dir, pattern string) (string, error)           { unsup(`MkdirTemp`); return ``, nil }
func WriteFile(name string, data []byte, perm FileMode) error { unsup(`WriteFile`); return nil }
func Remove(name string) error                                { unsup(`Remove`); return nil }
func RemoveAll(name string) error                             { unsup(`RemoveAll`); return nil }
func Rename(a, b string) error                                { unsup(`Rename`); return nil }
func Mkdir(name string, perm FileMode) error                  { unsup(`Mkdir`); return nil }
func MkdirAll(name string, perm FileMode) error               { unsup(`MkdirAll`); return nil }
func Chmod(name string, perm FileMode) error                  { unsup(`Chmod`); return nil }
func Chown(name string, u, g int) error                       { unsup(`Chown`); return nil }
func Lchown(name string, u, g int) error                      { unsup(`Lchown`); return nil }
func Chtimes(name string, a, m time.Time) error               { unsup(`Chtimes`); return nil }
func Truncate(name string, n int64) error                     { unsup(`Truncate`); return nil }
func Symlink(a, b string) error                               { unsup(`Symlink`); return nil }
func Link(a, b string) error                                  { unsup(`Link`); return nil }
func CopyFS(dir string, f fs.FS) error                        { unsup(`CopyFS`); return nil }
func DirFS(dir string) fs.FS                                  { unsup(`DirFS`); return nil }
func OpenRoot(name string) (*std.Root, error)                 { unsup(`OpenRoot`); return nil, nil }
func OpenInRoot(dir, name string) (*File, error)              { unsup(`OpenInRoot`); return nil, nil }
