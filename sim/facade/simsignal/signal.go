// Package simsignal stands in for package os/signal: the simulated host receives no signals.
package simsignal

import (
	"context"
	"os"
)

func Notify(c chan<- os.Signal, sig ...os.Signal) {}
func Stop(c chan<- os.Signal)                     {}
func Ignore(sig ...os.Signal)                     {}
func Reset(sig ...os.Signal)                      {}
func Ignored(sig os.Signal) bool                  { return false }
func NotifyContext(parent context.Context, s ...os.Signal) (context.Context, context.CancelFunc) {
	return context.WithCancel(parent)
}
