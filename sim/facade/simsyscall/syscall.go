// Package simsyscall stands in for package syscall.
package simsyscall

import (
	std "syscall"

	"simkit/world"
)

func Kill(pid int, sig Signal) error {
	if pid < 0 {
		pid = -pid
	}
	for _, p := range world.W.Procs {
		if p.Pid == pid && !p.Reaped {
			return p.Signal(sig)
		}
	}
	return std.ESRCH
}

func Getpid() int { return 1000 }

func Wait4(pid int, ws *WaitStatus, options int, ru *Rusage) (int, error) {
	for _, p := range world.W.Procs {
		if p.Pid == pid && !p.Reaped {
			if options&std.WNOHANG != 0 && !p.Exited {
				return 0, nil
			}
			if err := p.Wait(); err != nil {
				return -1, std.ECHILD
			}
			return pid, nil
		}
	}
	return -1, std.ECHILD
}

func Exit(code int)         { panic(`simulated world: unsupported operation syscall.Exit`) }
func Unlink(p string) error { panic(`simulated world: unsupported operation syscall.Unlink`) }
func Rmdir(p string) error  { panic(`simulated world: unsupported operation syscall.Rmdir`) }
func Reboot(c int) error    { panic(`simulated world: unsupported operation syscall.Reboot`) }
func Mount(a, b, c string, f uintptr, d string) error {
	panic(`simulated world: unsupported operation syscall.Mount`)
}
