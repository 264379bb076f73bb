// Package vnet replaces net in instrumented code with an in-memory network.
package vnet

import (
	"errors"
	"fmt"
	"io"
	"net"
	"os"
	"strings"
	"syscall"
	"time"

	"vharness/vrt"
)

// MaxEnds bounds the open ends of connections, like the limit on open files:
// whatever leaves connections open comes to an end.
const MaxEnds = 4096

// Net is the network of one execution.
type Net struct {
	listeners []*Listener_
	conns     []*Conn_
	Dials     int
}

// at returns the newest listener of an address.
func (n *Net) at(a string) *Listener_ {
	for i := len(n.listeners) - 1; i >= 0; i-- {
		if n.listeners[i].a == a {
			return n.listeners[i]
		}
	}
	return nil
}

func cur() *Net {
	e := vrt.Cur
	if e == nil {
		panic("vnet: no execution")
	}
	n, _ := e.Net.(*Net)
	if n == nil {
		n = &Net{}
		e.Net = n
	}
	return n
}

func init() {
	vrt.OnFinish(func(e *vrt.Exec) {
		n, _ := e.Net.(*Net)
		if n == nil {
			return
		}
		for _, l := range n.listeners {
			l.Close()
		}
		for _, c := range n.conns {
			c.Close()
		}
	})
}

// Norm normalises an address.
func Norm(a string) (string, error) {
	i := strings.LastIndex(a, ":")
	if i < 0 {
		return "", fmt.Errorf("address %s: missing port in address", a)
	}
	h, p := a[:i], a[i+1:]
	if h == "" || h == "localhost" || h == "0.0.0.0" || h == "[::]" || h == "::" {
		h = "127.0.0.1"
	}
	return h + ":" + p, nil
}

type addr string

func (a addr) Network() string { return "tcp" }
func (a addr) String() string  { return string(a) }

// Listener_ is an in-memory listener.
type Listener_ struct {
	refuse bool
	a      string
	queue  []*Conn_
	closed bool
	wait   chan struct{}
}

// Conn_ is one end of an in-memory connection.
type Conn_ struct {
	Local, Remote string
	peer          *Conn_
	closed        bool
	done          chan struct{}
	served        chan struct{}
	Handler       interface{} // server end: whoever called ServeConn
	isServed      bool
	Race, RaceEnd byte // server end: what happens before a request, and before ServeConn returns
}

func newPair(from, to string) (*Conn_, *Conn_) {
	a := &Conn_{Local: from, Remote: to, done: make(chan struct{}), served: make(chan struct{})}
	b := &Conn_{Local: to, Remote: from, done: make(chan struct{}), served: make(chan struct{})}
	a.peer, b.peer = b, a
	return a, b
}

func opErr(op, a string, err error) error {
	return &net.OpError{Op: op, Net: "tcp", Addr: addr(a), Err: err}
}

// Listen mirrors net.Listen.
func Listen(network, address string) (net.Listener, error) {
	a, err := Norm(address)
	if err != nil {
		return nil, opErr("listen", address, err)
	}
	vrt.RaceOff()
	defer vrt.RaceBack()
	n := cur()
	if l := n.at(a); l != nil && !l.closed {
		return nil, opErr("listen", a, os.NewSyscallError("bind", syscall.EADDRINUSE))
	}
	l := &Listener_{a: a, wait: make(chan struct{}, 1)}
	n.listeners = append(n.listeners, l)
	return l, nil
}

// Listening reports whether an address has a live listener (harness use).
func Listening(address string) bool {
	a, _ := Norm(address)
	l := cur().at(a)
	return l != nil && !l.closed
}

// Pending is the number of connections waiting to be accepted (harness use).
func Pending(address string) int {
	a, _ := Norm(address)
	if l := cur().at(a); l != nil {
		return len(l.queue)
	}
	return 0
}

// Unplug makes an address unreachable (harness use).
func Unplug(address string) {
	a, _ := Norm(address)
	if l := cur().at(a); l != nil {
		l.Close()
	}
}

// Outage makes an address unreachable for a while (harness use).
func Outage(address string, on bool) {
	a, _ := Norm(address)
	if l := cur().at(a); l != nil {
		l.refuse = on
	}
}

// Accept mirrors net.Listener.
func (l *Listener_) Accept() (net.Conn, error) {
	vrt.RaceOff()
	defer vrt.RaceBack()
	e := vrt.Cur
	if e != nil && e.AcceptPoints {
		vrt.Point("accept "+l.a, func() bool { return l.closed || len(l.queue) > 0 })
	}
	for {
		if l.closed || e == nil || e.Dying() {
			return nil, opErr("accept", l.a, net.ErrClosed)
		}
		if len(l.queue) > 0 {
			c := l.queue[0]
			l.queue = l.queue[1:]
			if c.closed {
				// The client is gone already; Accept still yields the connection.
			}
			return c, nil
		}
		<-l.wait
	}
}

// Close mirrors net.Listener.
func (l *Listener_) Close() error {
	vrt.RaceOff()
	defer vrt.RaceBack()
	if e := vrt.Cur; e != nil && e.AcceptPoints {
		vrt.Point("close "+l.a, nil)
	}
	if l.closed {
		return opErr("close", l.a, net.ErrClosed)
	}
	l.closed = true
	for _, c := range l.queue {
		c.Close() // the kernel resets connections nobody accepted
	}
	l.queue = nil
	select {
	case l.wait <- struct{}{}:
	default:
	}
	return nil
}

// Addr mirrors net.Listener.
func (l *Listener_) Addr() net.Addr { return addr(l.a) }

// Dial mirrors net.Dial.
func Dial(network, address string) (net.Conn, error) {
	vrt.RaceOff()
	defer vrt.RaceBack()
	a, err := Norm(address)
	if err != nil {
		return nil, opErr("dial", address, err)
	}
	e := vrt.Cur
	n := cur()
	n.Dials++
	if e.AcceptPoints || e.Fault != nil && !e.IsHarness() {
		vrt.Point("dial "+a, nil) // faults are choices: they need a determinate order
	}
	if e.Fault != nil {
		vrt.RaceBack() // the hook may format
		f := e.Fault("dial", a, "")
		vrt.RaceOff()
		if f {
			return nil, opErr("dial", a, os.NewSyscallError("connect", syscall.ECONNREFUSED))
		}
	}
	l := n.at(a)
	if l == nil || l.closed || l.refuse {
		return nil, opErr("dial", a, os.NewSyscallError("connect", syscall.ECONNREFUSED))
	}
	if len(n.conns) >= MaxEnds {
		open := n.conns[:0]
		for _, c := range n.conns {
			if !c.closed {
				open = append(open, c)
			}
		}
		n.conns = open
		if len(open) >= MaxEnds {
			return nil, opErr("dial", a, os.NewSyscallError("socket", syscall.EMFILE))
		}
	}
	c, s := newPair("127.0.0.1:0", a)
	n.conns = append(n.conns, c, s)
	l.queue = append(l.queue, s)
	select {
	case l.wait <- struct{}{}:
	default:
	}
	return c, nil
}

// DialTimeout mirrors net.DialTimeout.
func DialTimeout(network, address string, _ time.Duration) (net.Conn, error) {
	return Dial(network, address)
}

// Dialer mirrors net.Dialer (subset).
type Dialer struct {
	Timeout   time.Duration
	Deadline  time.Time
	KeepAlive time.Duration
}

func (d *Dialer) Dial(network, address string) (net.Conn, error) { return Dial(network, address) }

// Close mirrors net.Conn.
func (c *Conn_) Close() error {
	vrt.RaceOff()
	defer vrt.RaceBack()
	if c.closed {
		return opErr("close", c.Local, net.ErrClosed)
	}
	c.shut()
	c.peer.shut()
	return nil
}

func (c *Conn_) shut() {
	if !c.closed {
		c.closed = true
		close(c.done)
	}
}

// Closed reports whether either end closed the connection.
func (c *Conn_) Closed() bool { return c.closed }

// Serve registers h as the server of this (server-side) end.
func (c *Conn_) Serve(h interface{}) {
	if !c.isServed {
		c.isServed = true
		c.Handler = h
		close(c.served)
	}
}

// WaitServed blocks until the peer is served or the connection closed.
func (c *Conn_) WaitServed() (interface{}, bool) {
	select {
	case <-c.peer.served:
	case <-c.done:
	}
	if c.closed {
		return nil, false
	}
	return c.peer.Handler, true
}

// Peer is the other end.
func (c *Conn_) Peer() *Conn_ { return c.peer }

// ServedOrClosed reports readiness without blocking.
func (c *Conn_) ServedOrClosed() bool { return c.closed || c.peer.isServed }

// WaitClosed blocks until the connection is closed.
func (c *Conn_) WaitClosed() { <-c.done }

func (c *Conn_) Read(b []byte) (int, error) { return 0, io.EOF }
func (c *Conn_) Write(b []byte) (int, error) {
	return 0, errors.New("vnet: raw writes are not modelled")
}
func (c *Conn_) LocalAddr() net.Addr                { return addr(c.Local) }
func (c *Conn_) RemoteAddr() net.Addr               { return addr(c.Remote) }
func (c *Conn_) SetDeadline(t time.Time) error      { return nil }
func (c *Conn_) SetReadDeadline(t time.Time) error  { return nil }
func (c *Conn_) SetWriteDeadline(t time.Time) error { return nil }
