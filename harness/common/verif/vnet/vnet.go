//go:build go1.21

// Package vnet stands in for package net in the code under test: listening and
// dialling go to hooks of the harness.
package vnet

import (
	"context"
	"errors"
	"fmt"
	"net"
	"os"
	"strings"
	"sync"
	"time"
)

// ListenHook and DialHook serve net.Listen and net.Dial; nil: the real network.
var (
	ListenHook func(addr string) (net.Listener, error)
	DialHook   func(addr string) (net.Conn, error)
)

// Listen replaces net.Listen.
func Listen(network, addr string) (net.Listener, error) {
	if ListenHook == nil {
		return net.Listen(network, addr)
	}
	return ListenHook(addr)
}

// Dial replaces net.Dial.
func Dial(network, addr string) (net.Conn, error) {
	if DialHook == nil {
		return net.Dial(network, addr)
	}
	return DialHook(addr)
}

// DialTimeout replaces net.DialTimeout.
func DialTimeout(network, addr string, d time.Duration) (net.Conn, error) {
	if DialHook == nil {
		return net.DialTimeout(network, addr, d)
	}
	return DialHook(addr)
}

// Dialer replaces net.Dialer.
type Dialer struct {
	Timeout, KeepAlive, FallbackDelay time.Duration
	Deadline                          time.Time
	LocalAddr                         net.Addr
	DualStack                         bool
}

// Dial connects.
func (d *Dialer) Dial(network, addr string) (net.Conn, error) { return Dial(network, addr) }

// DialContext connects.
func (d *Dialer) DialContext(ctx context.Context, network, addr string) (net.Conn, error) {
	if err := ctx.Err(); err != nil {
		return nil, err
	}
	return Dial(network, addr)
}

// ListenConfig replaces net.ListenConfig.
type ListenConfig struct{ KeepAlive time.Duration }

// Listen listens.
func (l *ListenConfig) Listen(ctx context.Context, network, addr string) (net.Listener, error) {
	return Listen(network, addr)
}

// Addr is a made-up address.
type Addr string

// Network is the network.
func (Addr) Network() string  { return "tcp" }
func (a Addr) String() string { return string(a) }

// ---------------------------------------------------------------- scripted connections (no scheduler)

// Listener hands out the connections delivered to it.
type Listener struct {
	addr string
	ch   chan net.Conn
	dead chan struct{}
	once sync.Once
}

// NewListener makes a listener.
func NewListener(addr string) *Listener {
	return &Listener{addr: addr, ch: make(chan net.Conn), dead: make(chan struct{})}
}

// Accept waits for a connection.
func (l *Listener) Accept() (net.Conn, error) {
	select {
	case c := <-l.ch:
		return c, nil
	case <-l.dead:
		return nil, net.ErrClosed
	}
}

// Close stops the listener.
func (l *Listener) Close() error {
	l.once.Do(func() { close(l.dead) })
	return nil
}

// Addr is the address.
func (l *Listener) Addr() net.Addr { return Addr(l.addr) }

// Deliver hands a connection to the accepting server.
func (l *Listener) Deliver(c net.Conn) bool {
	select {
	case l.ch <- c:
		return true
	case <-l.dead:
		return false
	case <-time.After(20 * time.Second):
		return false
	}
}

// Ev is what happens next on the reading side of a scripted connection.
type Ev struct {
	Data    []byte
	Timeout bool // nothing arrives before the deadline
	Err     error
}

func (e Ev) String() string {
	switch {
	case e.Timeout:
		return "T"
	case e.Err != nil:
		return e.Err.Error()
	}
	return fmt.Sprint(len(e.Data))
}

// Script writes a script shortly.
func Script(l []Ev) string {
	var s []string
	for _, e := range l {
		s = append(s, e.String())
	}
	return strings.Join(s, ",")
}

// ErrReset is a broken connection.
var ErrReset = errors.New("connection reset by peer")

// ScriptConn is a connection whose incoming side follows a script; at its end
// the peer has closed (io.EOF given by the last event or implied).
type ScriptConn struct {
	mu         sync.Mutex
	evs        []Ev
	eof        error
	out        []byte
	failAt     int // writing fails when so many bytes were written; <0 never
	failErr    error
	failed     bool
	closed     bool
	CloseErr   error
	deadline   bool // armed since the last time-out
	Bad        string
	timeouts   int
	Done       chan struct{}
	once       sync.Once
	after      int // bytes written after a failed write
	closeCalls int
}

// NewScriptConn makes one.
func NewScriptConn(evs []Ev, eof error) *ScriptConn {
	return &ScriptConn{evs: append([]Ev{}, evs...), eof: eof, failAt: -1, Done: make(chan struct{})}
}

// FailWrite makes writing fail after n bytes.
func (c *ScriptConn) FailWrite(n int, err error) *ScriptConn {
	c.failAt, c.failErr = n, err
	return c
}

// Read follows the script.
func (c *ScriptConn) Read(p []byte) (int, error) {
	c.mu.Lock()
	defer c.mu.Unlock()
	if c.closed {
		return 0, net.ErrClosed
	}
	if len(p) == 0 {
		return 0, nil
	}
	for len(c.evs) > 0 && c.evs[0].Data != nil && len(c.evs[0].Data) == 0 {
		c.evs = c.evs[1:]
	}
	if len(c.evs) == 0 {
		return 0, c.eof
	}
	e := &c.evs[0]
	switch {
	case e.Timeout:
		if !c.deadline {
			// a read without a (new) deadline: at once again, or for ever
			if c.timeouts == 0 {
				c.Bad = "read without a deadline"
			} else {
				c.Bad = "read after a time-out without a new deadline"
			}
			return 0, c.eof
		}
		c.evs = c.evs[1:]
		c.timeouts++
		c.deadline = false
		return 0, os.ErrDeadlineExceeded
	case e.Err != nil:
		return 0, e.Err
	}
	n := copy(p, e.Data)
	if n == len(e.Data) {
		c.evs = c.evs[1:]
	} else {
		e.Data = e.Data[n:]
	}
	return n, nil
}

// Write records.
func (c *ScriptConn) Write(p []byte) (int, error) {
	c.mu.Lock()
	defer c.mu.Unlock()
	if c.closed {
		return 0, net.ErrClosed
	}
	if c.failed {
		c.after += len(p)
		return 0, c.failErr
	}
	if c.failAt >= 0 && len(c.out)+len(p) > c.failAt {
		n := c.failAt - len(c.out)
		c.out = append(c.out, p[:n]...)
		c.failed = true
		return n, c.failErr
	}
	c.out = append(c.out, p...)
	return len(p), nil
}

// Close ends it.
func (c *ScriptConn) Close() error {
	c.mu.Lock()
	defer c.mu.Unlock()
	c.closeCalls++
	if c.closed {
		return net.ErrClosed
	}
	c.closed = true
	c.once.Do(func() { close(c.Done) })
	return c.CloseErr
}

// Output is what was written, and whether the connection has been closed.
func (c *ScriptConn) Output() ([]byte, bool) {
	c.mu.Lock()
	defer c.mu.Unlock()
	return append([]byte{}, c.out...), c.closed
}

// Unread is the number of events left.
func (c *ScriptConn) Unread() int {
	c.mu.Lock()
	defer c.mu.Unlock()
	return len(c.evs)
}

func (c *ScriptConn) arm(t time.Time) error {
	c.mu.Lock()
	defer c.mu.Unlock()
	if c.closed {
		return net.ErrClosed
	}
	c.deadline = !t.IsZero()
	return nil
}

func (c *ScriptConn) LocalAddr() net.Addr                { return Addr("here:1") }
func (c *ScriptConn) RemoteAddr() net.Addr               { return Addr("there:1") }
func (c *ScriptConn) SetDeadline(t time.Time) error      { return c.arm(t) }
func (c *ScriptConn) SetReadDeadline(t time.Time) error  { return c.arm(t) }
func (c *ScriptConn) SetWriteDeadline(t time.Time) error { return nil }
