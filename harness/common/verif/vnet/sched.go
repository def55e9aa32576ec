//go:build go1.21

package vnet

import (
	"errors"
	"io"
	"net"
	"os"
	"time"

	"github.com/ConsenSys/fc-retrieval/common/verif/vsched"
)

// Connections under the controlled scheduler: every read, write, close and
// accept is a scheduling point, time-outs follow the virtual clock.

type half struct {
	buf  [16384]byte
	r, w int
	eof  bool // the writing end has closed
}

// SConn is one end of a connection.
type SConn struct {
	in, out  *half
	other    *SConn
	closed   bool
	deadline time.Time
	Name     string
	// what happened, for the harness (no effect on the connection)
	OnWrite, OnRead, OnClose func(c *SConn)
	Timeouts                 int
}

// SPipe makes the two ends of a connection.
func SPipe(name string) (*SConn, *SConn) {
	a, b := &half{}, &half{}
	x := &SConn{in: a, out: b, Name: name + "<"}
	y := &SConn{in: b, out: a, Name: name + ">"}
	x.other, y.other = y, x
	return x, y
}

// Read waits for bytes, the end, or the deadline.
//
//go:noinline
func (c *SConn) Read(p []byte) (int, error) {
	ok := vsched.BlockUntil("read "+c.Name, func() bool { return c.in.r < c.in.w || c.in.eof || c.closed }, c.deadline)
	switch {
	case c.closed:
		return 0, net.ErrClosed
	case !ok:
		c.Timeouts++
		return 0, os.ErrDeadlineExceeded
	case c.in.r < c.in.w:
		n := copy(p, c.in.buf[c.in.r:c.in.w])
		c.in.r += n
		if c.in.r == c.in.w {
			c.in.r, c.in.w = 0, 0
		}
		if c.OnRead != nil {
			c.OnRead(c)
		}
		return n, nil
	}
	return 0, io.EOF
}

// Write never blocks.
//
//go:noinline
func (c *SConn) Write(p []byte) (int, error) {
	vsched.Point("write " + c.Name)
	if c.closed {
		return 0, net.ErrClosed
	}
	if c.OnWrite != nil {
		c.OnWrite(c)
	}
	if c.other.closed {
		return 0, errors.New("broken pipe")
	}
	if c.out.w+len(p) > len(c.out.buf) {
		panic("vnet: buffer too small")
	}
	c.out.w += copy(c.out.buf[c.out.w:], p)
	return len(p), nil
}

// Close ends this side; the other reads what was written and then the end.
//
//go:noinline
func (c *SConn) Close() error {
	vsched.Point("close " + c.Name)
	if c.closed {
		return net.ErrClosed
	}
	c.closed = true
	c.out.eof = true
	if c.OnClose != nil {
		c.OnClose(c)
	}
	return nil
}

// Closed tells whether this side was closed; Buffered what it has not read.
func (c *SConn) Closed() bool  { return c.closed }
func (c *SConn) Buffered() int { return c.in.w - c.in.r }

func (c *SConn) arm(t time.Time) error {
	if c.closed {
		return net.ErrClosed
	}
	c.deadline = t
	return nil
}

func (c *SConn) LocalAddr() net.Addr                { return Addr("here:1") }
func (c *SConn) RemoteAddr() net.Addr               { return Addr("there:1") }
func (c *SConn) SetDeadline(t time.Time) error      { return c.arm(t) }
func (c *SConn) SetReadDeadline(t time.Time) error  { return c.arm(t) }
func (c *SConn) SetWriteDeadline(t time.Time) error { return nil }

// SListener is a listener under the scheduler.
type SListener struct {
	backlog [32]*SConn
	n, next int
	closed  bool
	Addr_   string
}

// Deliver puts a connection in the backlog.
//
//go:noinline
func (l *SListener) Deliver(c *SConn) error {
	if l.closed {
		return errors.New("connection refused")
	}
	l.backlog[l.n] = c
	l.n++
	return nil
}

// Accept waits for a connection.
//
//go:noinline
func (l *SListener) Accept() (net.Conn, error) {
	vsched.Block("accept", func() bool { return l.next < l.n || l.closed })
	if l.next < l.n {
		c := l.backlog[l.next]
		l.next++
		return c, nil
	}
	return nil, net.ErrClosed
}

// Close closes it.
func (l *SListener) Close() error   { l.closed = true; return nil }
func (l *SListener) Addr() net.Addr { return Addr(l.Addr_) }
