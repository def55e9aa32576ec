//go:build go1.21

// Package vlisten is a network of this process: listeners that can be taken down, and ports that are busy.
package vlisten

import (
	"errors"
	"net"
	"sync"
	"time"
)

// Net is a network; Current is the one in use.
type Net struct {
	mu     sync.Mutex
	ports  map[string]*listener
	Busy   map[string]bool // what another process has taken
	dialed []string
}

var (
	mu      sync.Mutex
	current *Net
)

// New makes a network and puts it to use.
func New() *Net {
	n := &Net{ports: map[string]*listener{}, Busy: map[string]bool{}}
	mu.Lock()
	current = n
	mu.Unlock()
	return n
}

func get() *Net { mu.Lock(); defer mu.Unlock(); return current }

type addr string

func (a addr) Network() string { return "tcp" }
func (a addr) String() string  { return string(a) }

type listener struct {
	n    *Net
	name string
	ch   chan net.Conn
	done chan struct{}
	once sync.Once
	told bool
}

// Listen replaces net.Listen.
func Listen(network, a string) (net.Listener, error) {
	n := get()
	n.mu.Lock()
	defer n.mu.Unlock()
	if n.Busy[a] || n.ports[a] != nil {
		return nil, errors.New("listen tcp " + a + ": bind: address already in use")
	}
	l := &listener{n: n, name: a, ch: make(chan net.Conn), done: make(chan struct{})}
	n.ports[a] = l
	return l, nil
}

func (l *listener) Addr() net.Addr { return addr(l.name) }

func (l *listener) Close() error {
	l.once.Do(func() {
		l.n.mu.Lock()
		if l.n.ports[l.name] == l {
			delete(l.n.ports, l.name)
		}
		l.n.mu.Unlock()
		close(l.done)
	})
	return nil
}

// Accept fails once after the listener is closed, and then blocks, as there are servers that would spin.
func (l *listener) Accept() (net.Conn, error) {
	select {
	case c := <-l.ch:
		return c, nil
	case <-l.done:
		if l.told {
			select {}
		}
		l.told = true
		return nil, errors.New("use of closed network connection")
	}
}

// Dial replaces net.Dial.
func Dial(network, a string) (net.Conn, error) {
	n := get()
	n.mu.Lock()
	n.dialed = append(n.dialed, a)
	n.mu.Unlock()
	return n.Connect(a)
}

// Connect makes a connection that is not counted.
func (n *Net) Connect(a string) (net.Conn, error) {
	n.mu.Lock()
	l := n.ports[a]
	n.mu.Unlock()
	if l == nil {
		return nil, errors.New("connection refused")
	}
	mine, theirs := net.Pipe()
	select {
	case l.ch <- theirs:
		return mine, nil
	case <-l.done:
		return nil, errors.New("connection refused")
	case <-time.After(20 * time.Second):
		return nil, errors.New("nobody accepts")
	}
}

// Dialed is what was connected to with Dial, and forgets it.
func (n *Net) Dialed() []string {
	n.mu.Lock()
	defer n.mu.Unlock()
	d := n.dialed
	n.dialed = nil
	return d
}

// Ports counts the listeners.
func (n *Net) Ports() int {
	n.mu.Lock()
	defer n.mu.Unlock()
	return len(n.ports)
}

// Down closes every listener.
func (n *Net) Down() {
	n.mu.Lock()
	ls := []*listener{}
	for _, l := range n.ports {
		ls = append(ls, l)
	}
	n.mu.Unlock()
	for _, l := range ls {
		l.Close()
	}
}
