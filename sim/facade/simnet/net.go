// Package simnet stands in for package net.
package simnet

import (
	"context"
	std "net"
	"time"

	"simkit/world"
)

func Dial(network, address string) (Conn, error) { return DialTimeout(network, address, 0) }

func DialTimeout(network, address string, d time.Duration) (Conn, error) {
	c, err := world.W.Dial(network, address, nil, d)
	if err != nil {
		return nil, err
	}
	return c, nil
}

// Dialer as in package net.
type Dialer struct {
	Timeout         time.Duration
	Deadline        time.Time
	LocalAddr       Addr
	DualStack       bool
	FallbackDelay   time.Duration
	KeepAlive       time.Duration
	KeepAliveConfig KeepAliveConfig
	Resolver        *Resolver
	Cancel          <-chan struct{}
}

func (d *Dialer) Dial(network, address string) (Conn, error) {
	return d.DialContext(context.Background(), network, address)
}

func (d *Dialer) DialContext(ctx context.Context, network, address string) (Conn, error) {
	to := d.Timeout
	if !d.Deadline.IsZero() {
		if r := time.Until(d.Deadline); to == 0 || r < to {
			to = r
		}
	}
	if dl, ok := ctx.Deadline(); ok {
		if r := time.Until(dl); to == 0 || r < to {
			to = r
		}
	}
	if err := ctx.Err(); err != nil {
		return nil, &OpError{Op: `dial`, Net: network, Err: err}
	}
	if to < 0 {
		to = 1
	}
	cancel := ctx.Done()
	if cancel == nil {
		cancel = d.Cancel
	}
	c, err := world.W.Dial(network, address, cancel, to)
	if err != nil {
		return nil, err
	}
	return c, nil
}

func Listen(network, address string) (Listener, error) {
	panic(`simulated world: unsupported operation net.Listen`)
}

func ListenPacket(network, address string) (PacketConn, error) {
	panic(`simulated world: unsupported operation net.ListenPacket`)
}

func DialUnix(network string, laddr, raddr *UnixAddr) (Conn, error) {
	return Dial(network, raddr.Name)
}

func DialTCP(network string, laddr, raddr *TCPAddr) (Conn, error) {
	return Dial(network, raddr.String())
}

func LookupHost(host string) ([]string, error) { return []string{`127.0.0.1`}, nil }

var _ = std.ErrClosed
