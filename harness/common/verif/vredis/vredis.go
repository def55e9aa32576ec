//go:build go1.21

// Package vredis is an in-memory stand-in for a redis server on loopback TCP:
// strings and hashes, transactions, snapshots, and a fault at any command.
package vredis

import (
	"bufio"
	"fmt"
	"io"
	"net"
	"path"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"
)

// Fault kinds.
const (
	None        = ""
	ErrReply    = "error reply"
	OOM         = "write refused"
	CloseBefore = "connection lost before the command"
	CloseAfter  = "connection lost after the command"
	PartReply   = "connection lost within the reply"
	Garbled     = "stored value unreadable"
	Down        = "server gone from the command on"
	DownAfter   = "server gone after the command"
)

// Faults lists them.
var Faults = []string{ErrReply, OOM, CloseBefore, CloseAfter, PartReply, Down, DownAfter}

// Server is the stand-in.
type Server struct {
	mu     sync.Mutex
	l      net.Listener
	hashes map[string]map[string]string
	strs   map[string]string
	n      int // data commands seen since Arm
	at     int // fault at this command; <0 none
	kind   string
	down   bool
	hit    bool
	conns  map[net.Conn]bool
	Log    []string
}

// New starts it.
func New() *Server {
	l, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		panic(err)
	}
	s := &Server{l: l, hashes: map[string]map[string]string{}, strs: map[string]string{}, at: -1, conns: map[net.Conn]bool{}}
	go s.accept()
	return s
}

// HostPort gives the address.
func (s *Server) HostPort() (string, string) {
	h, p, _ := net.SplitHostPort(s.l.Addr().String())
	return h, p
}

// Snapshot is a copy of everything stored.
type Snapshot struct {
	h map[string]map[string]string
	s map[string]string
}

func copyH(h map[string]map[string]string) map[string]map[string]string {
	o := map[string]map[string]string{}
	for k, m := range h {
		n := map[string]string{}
		for a, b := range m {
			n[a] = b
		}
		o[k] = n
	}
	return o
}

func copyS(h map[string]string) map[string]string {
	o := map[string]string{}
	for k, v := range h {
		o[k] = v
	}
	return o
}

// Save copies the contents.
func (s *Server) Save() Snapshot {
	s.mu.Lock()
	defer s.mu.Unlock()
	return Snapshot{copyH(s.hashes), copyS(s.strs)}
}

// Load restores contents.
func (s *Server) Load(o Snapshot) {
	s.mu.Lock()
	defer s.mu.Unlock()
	s.hashes, s.strs = copyH(o.h), copyS(o.s)
	if s.hashes == nil {
		s.hashes = map[string]map[string]string{}
	}
}

// Key renders a snapshot canonically.
func (o Snapshot) Key() string {
	var l []string
	for k, m := range o.h {
		for a, b := range m {
			l = append(l, fmt.Sprintf("%q.%q=%q", k, a, b))
		}
	}
	for k, v := range o.s {
		l = append(l, fmt.Sprintf("%q=%q", k, v))
	}
	sort.Strings(l)
	return strings.Join(l, ";")
}

// Arm sets a fault at the at-th data command from now (none when at<0) and
// clears the counters.
func (s *Server) Arm(at int, kind string) {
	s.mu.Lock()
	s.n, s.at, s.kind, s.down, s.hit, s.Log = 0, at, kind, false, false, nil
	s.mu.Unlock()
}

// Seen reports the number of data commands since Arm and whether the fault
// happened.
func (s *Server) Seen() (int, bool) {
	s.mu.Lock()
	defer s.mu.Unlock()
	return s.n, s.hit
}

// Open reports how many connections are open.
func (s *Server) Open() int {
	s.mu.Lock()
	defer s.mu.Unlock()
	return len(s.conns)
}

func (s *Server) accept() {
	for {
		c, err := s.l.Accept()
		if err != nil {
			return
		}
		s.mu.Lock()
		d := s.down
		if !d {
			s.conns[c] = true
		}
		s.mu.Unlock()
		if d {
			c.Close()
			continue
		}
		go s.serve(c)
	}
}

// Quiesce waits until no connection is open, or the time is up.
func (s *Server) Quiesce(d time.Duration) int {
	end := time.Now().Add(d)
	for {
		n := s.Open()
		if n == 0 || time.Now().After(end) {
			return n
		}
		time.Sleep(2 * time.Millisecond)
	}
}

func readCmd(r *bufio.Reader) ([]string, error) {
	l, err := r.ReadString('\n')
	if err != nil {
		return nil, err
	}
	l = strings.TrimRight(l, "\r\n")
	if l == "" {
		return nil, nil
	}
	if l[0] != '*' {
		return strings.Fields(l), nil
	}
	n, err := strconv.Atoi(l[1:])
	if err != nil {
		return nil, err
	}
	var out []string
	for i := 0; i < n; i++ {
		h, err := r.ReadString('\n')
		if err != nil {
			return nil, err
		}
		m, err := strconv.Atoi(strings.TrimRight(h, "\r\n")[1:])
		if err != nil {
			return nil, err
		}
		b := make([]byte, m+2)
		if _, err := io.ReadFull(r, b); err != nil {
			return nil, err
		}
		out = append(out, string(b[:m]))
	}
	return out, nil
}

func bulk(s string) string { return fmt.Sprintf("$%d\r\n%s\r\n", len(s), s) }

func (s *Server) serve(c net.Conn) {
	defer func() {
		c.Close()
		s.mu.Lock()
		delete(s.conns, c)
		s.mu.Unlock()
	}()
	r := bufio.NewReader(c)
	var queue [][]string
	multi := false
	for {
		cmd, err := readCmd(r)
		if err != nil {
			return
		}
		if len(cmd) == 0 {
			continue
		}
		name := strings.ToUpper(cmd[0])
		switch name {
		case "PING":
			io.WriteString(c, "+PONG\r\n")
			continue
		case "AUTH", "SELECT", "CLIENT", "READONLY", "UNWATCH", "WATCH":
			io.WriteString(c, "+OK\r\n")
			continue
		case "QUIT":
			io.WriteString(c, "+OK\r\n")
			return
		case "HELLO":
			io.WriteString(c, "-ERR unknown command 'HELLO'\r\n")
			continue
		case "MULTI":
			multi, queue = true, nil
			io.WriteString(c, "+OK\r\n")
			continue
		case "DISCARD":
			multi, queue = false, nil
			io.WriteString(c, "+OK\r\n")
			continue
		}
		if multi && name != "EXEC" {
			queue = append(queue, cmd)
			io.WriteString(c, "+QUEUED\r\n")
			continue
		}
		s.mu.Lock()
		i := s.n
		s.n++
		if len(s.Log) < 100 {
			s.Log = append(s.Log, strings.Join(cmd, " "))
		}
		kind := None
		if s.down {
			kind = Down
		} else if i == s.at {
			kind, s.hit = s.kind, true
			if kind == Down || kind == DownAfter {
				s.down = true
				s.hit = true
			}
		}
		do := func() string {
			if name == "EXEC" {
				var b strings.Builder
				fmt.Fprintf(&b, "*%d\r\n", len(queue))
				for _, q := range queue {
					b.WriteString(s.exec(q))
				}
				multi, queue = false, nil
				return b.String()
			}
			return s.exec(cmd)
		}
		var reply string
		closeAfter := false
		switch kind {
		case None:
			reply = do()
		case ErrReply:
			reply = "-ERR storage failed\r\n"
			multi, queue = false, nil
		case OOM:
			if w := writes(cmd, queue); w {
				reply = "-OOM command not allowed when used memory > 'maxmemory'.\r\n"
				multi, queue = false, nil
			} else {
				reply = do()
			}
		case Garbled:
			reply = do()
			if !writes(cmd, queue) {
				b := []byte(reply)
				in := false
				for i := range b { // bulk payloads only: the protocol itself stays sound
					if b[i] == '{' {
						in = true
					}
					if in && b[i] == '"' {
						b[i] = '~'
					}
					if b[i] == '}' {
						in = false
					}
				}
				reply = string(b)
			}
		case CloseBefore, Down:
			closeAfter = true
		case CloseAfter, DownAfter:
			do()
			closeAfter = true
		case PartReply:
			reply = do()
			reply = reply[:len(reply)/2]
			closeAfter = true
		}
		s.mu.Unlock()
		if reply != "" {
			io.WriteString(c, reply)
		}
		if closeAfter {
			return
		}
	}
}

func writes(cmd []string, queue [][]string) bool {
	w := func(n string) bool {
		switch strings.ToUpper(n) {
		case "HSET", "HMSET", "HSETNX", "SET", "SETNX", "HINCRBY", "RENAME":
			return true
		}
		return false
	}
	if w(cmd[0]) {
		return true
	}
	for _, q := range queue {
		if w(q[0]) {
			return true
		}
	}
	return false
}

func (s *Server) exec(cmd []string) string {
	a := cmd[1:]
	bad := "-ERR wrong number of arguments\r\n"
	num := func(n int) string { return fmt.Sprintf(":%d\r\n", n) }
	need := func(n int) bool { return len(a) >= n }
	keys := func(m map[string]string) []string {
		var l []string
		for k := range m {
			l = append(l, k)
		}
		sort.Strings(l)
		return l
	}
	list := func(l []string) string {
		var b strings.Builder
		fmt.Fprintf(&b, "*%d\r\n", len(l))
		for _, x := range l {
			b.WriteString(bulk(x))
		}
		return b.String()
	}
	switch strings.ToUpper(cmd[0]) {
	case "HSET", "HMSET":
		if len(a) < 3 || len(a)%2 != 1 {
			return bad
		}
		h := s.hashes[a[0]]
		if h == nil {
			h = map[string]string{}
			s.hashes[a[0]] = h
		}
		n := 0
		for i := 1; i < len(a); i += 2 {
			if _, ok := h[a[i]]; !ok {
				n++
			}
			h[a[i]] = a[i+1]
		}
		if strings.ToUpper(cmd[0]) == "HMSET" {
			return "+OK\r\n"
		}
		return num(n)
	case "HSETNX":
		if !need(3) {
			return bad
		}
		h := s.hashes[a[0]]
		if _, ok := h[a[1]]; ok {
			return num(0)
		}
		if h == nil {
			h = map[string]string{}
			s.hashes[a[0]] = h
		}
		h[a[1]] = a[2]
		return num(1)
	case "HGET":
		if !need(2) {
			return bad
		}
		if v, ok := s.hashes[a[0]][a[1]]; ok {
			return bulk(v)
		}
		return "$-1\r\n"
	case "HMGET":
		if !need(2) {
			return bad
		}
		var b strings.Builder
		fmt.Fprintf(&b, "*%d\r\n", len(a)-1)
		for _, f := range a[1:] {
			if v, ok := s.hashes[a[0]][f]; ok {
				b.WriteString(bulk(v))
			} else {
				b.WriteString("$-1\r\n")
			}
		}
		return b.String()
	case "HGETALL":
		if !need(1) {
			return bad
		}
		var l []string
		for _, k := range keys(s.hashes[a[0]]) {
			l = append(l, k, s.hashes[a[0]][k])
		}
		return list(l)
	case "HKEYS":
		if !need(1) {
			return bad
		}
		return list(keys(s.hashes[a[0]]))
	case "HVALS":
		if !need(1) {
			return bad
		}
		var l []string
		for _, k := range keys(s.hashes[a[0]]) {
			l = append(l, s.hashes[a[0]][k])
		}
		return list(l)
	case "HLEN":
		if !need(1) {
			return bad
		}
		return num(len(s.hashes[a[0]]))
	case "HEXISTS":
		if !need(2) {
			return bad
		}
		if _, ok := s.hashes[a[0]][a[1]]; ok {
			return num(1)
		}
		return num(0)
	case "HDEL":
		if !need(2) {
			return bad
		}
		n := 0
		for _, f := range a[1:] {
			if _, ok := s.hashes[a[0]][f]; ok {
				delete(s.hashes[a[0]], f)
				n++
			}
		}
		if len(s.hashes[a[0]]) == 0 {
			delete(s.hashes, a[0])
		}
		return num(n)
	case "HSCAN":
		if !need(2) {
			return bad
		}
		var l []string
		for _, k := range keys(s.hashes[a[0]]) {
			l = append(l, k, s.hashes[a[0]][k])
		}
		return "*2\r\n" + bulk("0") + list(l)
	case "DEL", "UNLINK":
		n := 0
		for _, k := range a {
			if _, ok := s.hashes[k]; ok {
				delete(s.hashes, k)
				n++
			}
			if _, ok := s.strs[k]; ok {
				delete(s.strs, k)
				n++
			}
		}
		return num(n)
	case "EXISTS":
		n := 0
		for _, k := range a {
			if _, ok := s.hashes[k]; ok {
				n++
			} else if _, ok := s.strs[k]; ok {
				n++
			}
		}
		return num(n)
	case "SET":
		if !need(2) {
			return bad
		}
		s.strs[a[0]] = a[1]
		return "+OK\r\n"
	case "GET":
		if !need(1) {
			return bad
		}
		if v, ok := s.strs[a[0]]; ok {
			return bulk(v)
		}
		return "$-1\r\n"
	case "MGET":
		var b strings.Builder
		fmt.Fprintf(&b, "*%d\r\n", len(a))
		for _, f := range a {
			if v, ok := s.strs[f]; ok {
				b.WriteString(bulk(v))
			} else {
				b.WriteString("$-1\r\n")
			}
		}
		return b.String()
	case "KEYS":
		if !need(1) {
			return bad
		}
		var l []string
		for k := range s.hashes {
			if ok, _ := path.Match(a[0], k); ok {
				l = append(l, k)
			}
		}
		for k := range s.strs {
			if ok, _ := path.Match(a[0], k); ok {
				l = append(l, k)
			}
		}
		sort.Strings(l)
		return list(l)
	case "FLUSHDB", "FLUSHALL":
		s.hashes, s.strs = map[string]map[string]string{}, map[string]string{}
		return "+OK\r\n"
	}
	return "-ERR unknown command '" + cmd[0] + "'\r\n"
}
