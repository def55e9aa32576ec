//go:build go1.21

// C11: framing of peer connections, for every way of cutting the byte stream
// into reads with time-outs, truncations and failing writes, on the real P2P
// server and requesters over scripted connections.
package main

import (
	"bytes"
	"encoding/binary"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"net"
	"net/http"
	"os"
	"runtime"
	"strings"
	"sync"
	"time"

	"github.com/ConsenSys/fc-retrieval/common/pkg/fcrmessages"
	"github.com/ConsenSys/fc-retrieval/common/pkg/fcrp2pserver"
	"github.com/ConsenSys/fc-retrieval/common/pkg/fcrregistermgr"
	"github.com/ConsenSys/fc-retrieval/common/pkg/logging"
	"github.com/ConsenSys/fc-retrieval/common/pkg/nodeid"
	"github.com/ConsenSys/fc-retrieval/common/pkg/register"
	"github.com/ConsenSys/fc-retrieval/common/verif/vh"
	"github.com/ConsenSys/fc-retrieval/common/verif/vnet"
)

const (
	tEcho   = 9900 // replies with its body
	tTwo    = 9901 // reads another message itself, replies with both bodies
	tTwice  = 9902 // replies twice
	tFail   = 9903 // its handler gives up
	tNobody = 9904 // no handler
	timeout = time.Second
)

func msg(typ int32, body string) *fcrmessages.FCRMessage {
	b, _ := json.Marshal(body)
	return fcrmessages.CreateFCRMessage(typ, b)
}

func bodyOf(m *fcrmessages.FCRMessage) string {
	var s string
	json.Unmarshal(m.GetMessageBody(), &s)
	return s
}

func frame(b []byte) []byte {
	out := make([]byte, 4, 4+len(b))
	binary.BigEndian.PutUint32(out, uint32(len(b)))
	return append(out, b...)
}

func msgFrame(typ int32, body string) []byte {
	b, err := msg(typ, body).FCRMsgToBytes()
	if err != nil {
		panic(err)
	}
	return frame(b)
}

// parse cuts an output into messages; rest is an incomplete tail.
func parse(b []byte) (l []string, rest int, bad string) {
	for len(b) > 0 {
		if len(b) < 4 {
			return l, len(b), ""
		}
		n := int(binary.BigEndian.Uint32(b))
		if len(b) < 4+n {
			return l, len(b), ""
		}
		m, err := fcrmessages.FCRMsgFromBytes(b[4 : 4+n])
		if err != nil {
			return l, 0, "undecodable message written: " + err.Error()
		}
		if m.GetMessageType() == fcrmessages.InvalidMessageResponseType {
			l = append(l, "invalid")
		} else {
			l = append(l, fmt.Sprintf("%d:%s", m.GetMessageType(), bodyOf(m)))
		}
		b = b[4+n:]
	}
	return l, 0, ""
}

// ---------------------------------------------------------------- server side

type server struct {
	mu            sync.Mutex
	seen          []string
	ln            *vnet.Listener
	innerTimeouts int
}

func (s *server) note(x string) { s.mu.Lock(); s.seen = append(s.seen, x); s.mu.Unlock() }

func startServer() *server {
	s := &server{}
	vnet.ListenHook = func(addr string) (net.Listener, error) {
		s.ln = vnet.NewListener(addr)
		return s.ln, nil
	}
	p := fcrp2pserver.NewFCRP2PServer([]string{"7001"}, nil, timeout)
	p.AddHandler("7001", tEcho, func(r *fcrp2pserver.FCRServerReader, w *fcrp2pserver.FCRServerWriter, m *fcrmessages.FCRMessage) error {
		s.note("echo:" + bodyOf(m))
		return w.Write(msg(tEcho, bodyOf(m)), timeout)
	})
	p.AddHandler("7001", tTwo, func(r *fcrp2pserver.FCRServerReader, w *fcrp2pserver.FCRServerWriter, m *fcrmessages.FCRMessage) error {
		s.note("two:" + bodyOf(m))
		m2, err := r.Read(timeout)
		for try := 0; err != nil && isTimeout(err) && try < 100000; try++ {
			m2, err = r.Read(timeout)
		}
		if err != nil {
			return err
		}
		s.note("inner:" + bodyOf(m2))
		return w.Write(msg(tTwo, bodyOf(m)+"+"+bodyOf(m2)), timeout)
	})
	p.AddHandler("7001", tTwice, func(r *fcrp2pserver.FCRServerReader, w *fcrp2pserver.FCRServerWriter, m *fcrmessages.FCRMessage) error {
		s.note("twice:" + bodyOf(m))
		if err := w.Write(msg(tTwice, bodyOf(m)+"1"), timeout); err != nil {
			return err
		}
		return w.Write(msg(tTwice, bodyOf(m)+"2"), timeout)
	})
	p.AddHandler("7001", tFail, func(r *fcrp2pserver.FCRServerReader, w *fcrp2pserver.FCRServerWriter, m *fcrmessages.FCRMessage) error {
		s.note("fail:" + bodyOf(m))
		return errors.New("handler gives up")
	})
	if err := p.Start(); err != nil {
		panic(err)
	}
	return s
}

func isTimeout(err error) bool { n, ok := err.(net.Error); return ok && n.Timeout() }

// in is one frame of an incoming stream and what it must cause.
type in struct {
	b    []byte
	typ  int32
	body string
	bad  bool // not a message
}

func mk(typ int32, body string) in { return in{msgFrame(typ, body), typ, body, false} }

// expect: the calls and replies the frames cause; ends after a failing handler.
func expect(fs []in) (calls, replies []string, ends bool) {
	for i := 0; i < len(fs); i++ {
		f := fs[i]
		if f.bad {
			return calls, replies, true
		}
		switch f.typ {
		case tEcho:
			calls = append(calls, "echo:"+f.body)
			replies = append(replies, fmt.Sprintf("%d:%s", tEcho, f.body))
		case tTwo:
			calls = append(calls, "two:"+f.body)
			if i+1 == len(fs) || fs[i+1].bad {
				return calls, replies, true
			}
			i++
			calls = append(calls, "inner:"+fs[i].body)
			replies = append(replies, fmt.Sprintf("%d:%s+%s", tTwo, f.body, fs[i].body))
		case tTwice:
			calls = append(calls, "twice:"+f.body)
			replies = append(replies, fmt.Sprintf("%d:%s1", tTwice, f.body), fmt.Sprintf("%d:%s2", tTwice, f.body))
		case tFail:
			calls = append(calls, "fail:"+f.body)
			return calls, replies, true
		default:
			replies = append(replies, "invalid")
		}
	}
	return calls, replies, false
}

func join(l []string) string { return strings.Join(l, " ") }

// serve runs one scripted connection to its end and compares.
func (s *server) serve(t *vh.T, name string, c *vnet.ScriptConn, script func() string, ok ...[2]string) {
	t.Case(func() string { return name + " " + script() })
	s.mu.Lock()
	s.seen = s.seen[:0]
	s.mu.Unlock()
	if !s.ln.Deliver(c) {
		t.Violate("server dead", name+" "+script()+": the server no longer accepts connections", script())
		return
	}
	select {
	case <-c.Done:
	case <-time.After(20 * time.Second):
		t.Violate("connection never ends", name+" "+script(), script())
		return
	}
	t.Eval()
	if c.Bad != "" {
		t.Violate("deadline", name+" "+script()+": "+c.Bad, script())
		return
	}
	s.mu.Lock()
	calls := join(s.seen)
	s.mu.Unlock()
	out, _ := c.Output()
	l, rest, bad := parse(out)
	if bad != "" {
		t.Violate("bad output", name+" "+script()+": "+bad, script())
		return
	}
	got := [2]string{calls, join(l)}
	for _, o := range ok {
		if o == got && rest == 0 {
			return
		}
	}
	t.Violate("wrong delivery", fmt.Sprintf("%s %s: handled [%s], replied [%s] (+%d bytes); should be %v", name, script(), calls, join(l), rest, ok), script())
}

func want(fs []in) [2]string {
	c, r, _ := expect(fs)
	return [2]string{join(c), join(r)}
}

func cat(fs []in) []byte {
	var b []byte
	for _, f := range fs {
		b = append(b, f.b...)
	}
	return b
}

// cuts makes the events of a stream cut at the positions, with time-outs there.
func cuts(b []byte, at []int, touts []int) []vnet.Ev {
	var evs []vnet.Ev
	prev := 0
	for i, p := range at {
		if p > prev {
			evs = append(evs, vnet.Ev{Data: b[prev:p]})
		}
		prev = p
		for k := 0; k < touts[i]; k++ {
			evs = append(evs, vnet.Ev{Timeout: true})
		}
	}
	if prev < len(b) {
		evs = append(evs, vnet.Ev{Data: b[prev:]})
	}
	return evs
}

// positions worth cutting at: all, or those near a boundary and every step-th.
func positions(fs []in, step int) []int {
	var out []int
	off := 0
	near := map[int]bool{}
	for _, f := range fs {
		for d := -2; d <= 6; d++ {
			near[off+d] = true
		}
		off += len(f.b)
	}
	for d := -2; d <= 2; d++ {
		near[4096+d], near[8192+d], near[4100+d] = true, true, true
	}
	for p := 0; p <= off; p++ {
		if p%step == 0 || near[p] {
			out = append(out, p)
		}
	}
	return out
}

func serverSide(t *vh.T) {
	s := startServer()
	big := strings.Repeat("x", 9000)
	streams := []struct {
		name string
		fs   []in
		step int // of single cuts
		pair int // of pairs of cuts
	}{
		{"two echoes", []in{mk(tEcho, "a"), mk(tEcho, "bb")}, 1, t.Pick(2, 1)},
		{"three kinds", []in{mk(tEcho, "a"), mk(tNobody, ""), mk(tTwice, "c")}, 1, t.Pick(3, 1)},
		{"handler reads on", []in{mk(tTwo, "a"), mk(tEcho, "b"), mk(tEcho, "c")}, 1, t.Pick(3, 1)},
		{"handler gives up", []in{mk(tEcho, "a"), mk(tFail, "b"), mk(tEcho, "c")}, 1, t.Pick(9, 3)},
		{"long then short", []in{mk(tEcho, big), mk(tEcho, "c")}, t.Pick(7, 1), t.Pick(400, 60)},
		{"short then long", []in{mk(tEcho, "c"), mk(tTwo, "x"), mk(tEcho, big)}, t.Pick(7, 1), t.Pick(400, 60)},
	}
	n := 0
	for _, st := range streams {
		st := st
		b := cat(st.fs)
		w := want(st.fs)
		run := func(evs []vnet.Ev, eof error, ok ...[2]string) {
			if n++; !t.Mine(n) {
				return
			}
			if t.Over() {
				t.NotExhaustive("time")
				return
			}
			t.Distinct(st.name + vnet.Script(evs))
			s.serve(t, st.name, vnet.NewScriptConn(evs, eof), func() string { return vnet.Script(evs) }, ok...)
		}
		// one cut, up to three time-outs there
		for _, p := range positions(st.fs, st.step) {
			for k := 0; k <= 3; k++ {
				run(cuts(b, []int{p}, []int{k}), io.EOF, w)
			}
		}
		// two cuts
		ps := positions(st.fs, st.pair)
		for i, p := range ps {
			for _, q := range ps[i+1:] {
				for k := 0; k < 4; k++ {
					run(cuts(b, []int{p, q}, []int{k & 1, k >> 1}), io.EOF, w)
				}
			}
		}
		// three cuts, coarser
		ps = positions(st.fs, t.Pick(len(b)/8+1, len(b)/20+1))
		for i, p := range ps {
			for j, q := range ps[i+1:] {
				for _, r := range ps[i+1+j+1:] {
					for k := 0; k < 8; k += t.Pick(7, 1) {
						run(cuts(b, []int{p, q, r}, []int{k & 1, k >> 1 & 1, k >> 2}), io.EOF, w)
					}
				}
			}
		}
		// byte by byte
		for k := 0; k <= 2; k++ {
			var at, to []int
			for p := 0; p < len(b); p++ {
				at, to = append(at, p), append(to, k)
			}
			if len(b) < 2000 || k < 1 {
				run(cuts(b, at, to), io.EOF, w)
			}
		}
		// cut off at every byte, by end of stream or a broken connection, after a time-out or not
		for _, p := range positions(st.fs, st.step) {
			var whole []in
			off := 0
			for _, f := range st.fs {
				if off+len(f.b) <= p {
					whole = append(whole, f)
				}
				off += len(f.b)
			}
			for _, eof := range []error{io.EOF, vnet.ErrReset} {
				for k := 0; k <= 1; k++ {
					evs := cuts(b[:p], []int{p / 2, p}, []int{k, k})
					run(evs, eof, want(whole))
				}
			}
		}
		// writing fails at every byte of the replies
		_, rep, _ := expect(st.fs)
		total := 0
		c := vnet.NewScriptConn([]vnet.Ev{{Data: b}}, io.EOF)
		s.serve(t, st.name, c, func() string { return "whole" }, w)
		o, _ := c.Output()
		total = len(o)
		_ = rep
		step := 1
		if total > 2000 {
			step = t.Pick(97, 5)
		}
		for p := 0; p < total; p += step {
			for _, e := range []error{os.ErrDeadlineExceeded, vnet.ErrReset} {
				if n++; !t.Mine(n) {
					continue
				}
				s.failedWrite(t, st.name, b, p, e, o)
			}
		}
		// closing fails
		if t.Mine(n) {
			c := vnet.NewScriptConn([]vnet.Ev{{Data: b}}, io.EOF)
			c.CloseErr = vnet.ErrReset
			s.serve(t, st.name, c, func() string { return "closing fails" }, w)
		}
	}
	// frames that are no messages, after and before good ones
	bads := map[string][]byte{
		"empty frame": frame(nil), "text": frame([]byte("hello")), "half json": frame([]byte(`{"message_type":900`)), "a number": frame([]byte("7")),
		"null": frame([]byte("null")), "list": frame([]byte("[]")), "zero bytes": frame(make([]byte, 300)),
		"sixteen million": {1, 0, 0, 0, 1, 2, 3}, "two thousand million": {0x7f, 0xff, 0xff, 0xff, '{'}, "minus one": {0xff, 0xff, 0xff, 0xff, '{', '}'}, "minus much": {0x80, 0, 0, 0},
		"cut length": {0, 0},
	}
	if t.Shard != 0 {
		return // one process only: the memory counts
	}
	for name, bad := range bads {
		name := name
		for _, k := range []int{0, 1} {
			good, after := mk(tEcho, "good"), mk(tEcho, "after")
			b := append(append(append([]byte{}, good.b...), bad...), after.b...)
			ws := [][2]string{want([]in{good}), want([]in{good, after}),
				{want([]in{good, after})[0], fmt.Sprintf("%d:good invalid %d:after", tEcho, tEcho)}, {want([]in{good})[0], fmt.Sprintf("%d:good invalid", tEcho)}}
			for _, p := range []int{0, len(good.b), len(good.b) + 2, len(good.b) + 4, len(good.b) + len(bad), len(b)} {
				evs := cuts(b, []int{p}, []int{k})
				if p > len(b) {
					continue
				}
				var m0, m1 runtime.MemStats
				runtime.ReadMemStats(&m0)
				s.serve(t, name, vnet.NewScriptConn(evs, io.EOF), func() string { return vnet.Script(evs) }, ws...)
				runtime.ReadMemStats(&m1)
				if d := m1.TotalAlloc - m0.TotalAlloc; d > 300<<20 {
					t.Violate("memory", fmt.Sprintf("%s: %d MB allocated for %d bytes received", name, d>>20, len(b)), name)
				}
				// and the server still serves
				s.serve(t, "after "+name, vnet.NewScriptConn([]vnet.Ev{{Data: good.b}}, io.EOF), func() string { return "" }, want([]in{good}))
			}
		}
	}
}

// failedWrite: after a failed write nothing more goes out on the connection and it ends.
func (s *server) failedWrite(t *vh.T, name string, b []byte, p int, e error, whole []byte) {
	c := vnet.NewScriptConn([]vnet.Ev{{Data: b}}, io.EOF).FailWrite(p, e)
	t.Case(func() string { return fmt.Sprint(name, " write fails at ", p) })
	if !s.ln.Deliver(c) {
		t.Violate("server dead", name, nil)
		return
	}
	select {
	case <-c.Done:
	case <-time.After(20 * time.Second):
		t.Violate("connection never ends", fmt.Sprint(name, " write fails at ", p), p)
		return
	}
	t.Eval()
	out, _ := c.Output()
	if !bytes.Equal(out, whole[:p]) {
		t.Violate("output after a failed write", fmt.Sprintf("%s: write fails at %d, yet %d bytes went out", name, p, len(out)), p)
	}
}

// ---------------------------------------------------------------- requesting side

func hexID(i int) string { return fmt.Sprintf("%064x", i+1) }

func node(i int) *nodeid.NodeID {
	n, err := nodeid.NewNodeIDFromHexString(hexID(i))
	if err != nil {
		panic(err)
	}
	return n
}

func registerServer() string {
	l, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		panic(err)
	}
	go http.Serve(l, http.HandlerFunc(func(w http.ResponseWriter, q *http.Request) {
		if strings.HasPrefix(q.URL.Path, "/registers/gateway") {
			json.NewEncoder(w).Encode([]register.GatewayRegister{{NodeID: hexID(0), NetworkInfoGateway: "gw:1", NetworkInfoProvider: "gw:2"}})
		} else {
			json.NewEncoder(w).Encode([]register.ProviderRegister{{NodeID: hexID(0), NetworkInfoGateway: "pv:1"}})
		}
	}))
	return "http://" + l.Addr().String()
}

// dialer serves scripted connections in turn.
type dialer struct {
	addrs []string
	conns []*vnet.ScriptConn
	next  int
	err   error
}

func (d *dialer) dial(addr string) (net.Conn, error) {
	d.addrs = append(d.addrs, addr)
	if d.err != nil {
		return nil, d.err
	}
	if d.next >= len(d.conns) {
		return nil, errors.New("connection refused")
	}
	c := d.conns[d.next]
	d.next++
	return c, nil
}

func requestingSide(t *vh.T) {
	m := fcrregistermgr.NewFCRRegisterMgr(registerServer(), true, true, time.Hour)
	if err := m.Start(); err != nil {
		panic(err)
	}
	m.Refresh()
	var d *dialer
	vnet.DialHook = func(addr string) (net.Conn, error) { return d.dial(addr) }
	vnet.ListenHook = func(addr string) (net.Listener, error) { return vnet.NewListener(addr), nil }
	fresh := func() *fcrp2pserver.FCRP2PServer {
		p := fcrp2pserver.NewFCRP2PServer([]string{"7002"}, m, timeout)
		one := func(r *fcrp2pserver.FCRServerReader, w *fcrp2pserver.FCRServerWriter, args ...interface{}) (*fcrmessages.FCRMessage, error) {
			if err := w.Write(msg(tEcho, args[0].(string)), timeout); err != nil {
				return nil, err
			}
			return r.Read(timeout)
		}
		p.AddRequester(tEcho, one)
		p.AddRequester(tTwice, func(r *fcrp2pserver.FCRServerReader, w *fcrp2pserver.FCRServerWriter, args ...interface{}) (*fcrmessages.FCRMessage, error) {
			m1, err := one(r, w, args...)
			if err != nil {
				return nil, err
			}
			m2, err := r.Read(timeout)
			if err != nil {
				return nil, err
			}
			return msg(tTwice, bodyOf(m1)+"&"+bodyOf(m2)), nil
		})
		if err := p.Start(); err != nil {
			panic(err)
		}
		return p
	}
	type api struct {
		name, addr string
		call       func(p *fcrp2pserver.FCRP2PServer, typ int32, body string) (*fcrmessages.FCRMessage, error)
	}
	apis := []api{
		{"gateway from gateway", "gw:1", func(p *fcrp2pserver.FCRP2PServer, typ int32, b string) (*fcrmessages.FCRMessage, error) {
			return p.RequestGatewayFromGateway(node(0), typ, b)
		}},
		{"gateway from provider", "gw:2", func(p *fcrp2pserver.FCRP2PServer, typ int32, b string) (*fcrmessages.FCRMessage, error) {
			return p.RequestGatewayFromProvider(node(0), typ, b)
		}},
		{"provider", "pv:1", func(p *fcrp2pserver.FCRP2PServer, typ int32, b string) (*fcrmessages.FCRMessage, error) {
			return p.RequestProvider(node(0), typ, b)
		}},
	}
	reply := func(b string) []byte { return msgFrame(tEcho, "re "+b) }
	// seq makes requests one after the other and checks each result; want "" means an error.
	seq := func(a api, name string, conns []*vnet.ScriptConn, reqs []string, wants []string, dials int) {
		d = &dialer{conns: conns}
		p := fresh()
		t.Case(func() string { return a.name + ": " + name })
		t.Eval()
		t.Distinct(a.name + name)
		for i, r := range reqs {
			typ := int32(tEcho)
			if strings.HasPrefix(r, "2") {
				typ = tTwice
			}
			var res *fcrmessages.FCRMessage
			var err error
			ok := t.Try("request", name, func() { res, err = a.call(p, typ, r) })
			if !ok {
				return
			}
			got := ""
			if err == nil {
				if res == nil {
					got = "nothing"
				} else {
					got = bodyOf(res)
				}
			}
			if got != wants[i] {
				t.Violate("wrong reply", fmt.Sprintf("%s, %s: request %d (%s) got %q, error %v; should be %q", a.name, name, i, r, got, err, wants[i]), name)
				return
			}
		}
		for i, c := range conns {
			if c.Bad != "" {
				t.Violate("deadline", fmt.Sprintf("%s, %s: %s", a.name, name, c.Bad), name)
			}
			out, closed := c.Output()
			last := i == d.next-1
			// a connection that was replaced has been closed
			if i < d.next && !last && !closed {
				t.Violate("not closed", fmt.Sprintf("%s, %s: connection %d replaced but left open", a.name, name, i), name)
			}
			_ = out
		}
		if len(d.addrs) != dials {
			t.Violate("dials", fmt.Sprintf("%s, %s: dialled %v, should be %d times", a.name, name, d.addrs, dials), name)
		}
		for _, x := range d.addrs {
			if x != a.addr {
				t.Violate("wrong address", fmt.Sprintf("%s, %s: dialled %v", a.name, name, d.addrs), name)
			}
		}
	}
	n := 0
	spare := func(l ...string) *vnet.ScriptConn {
		var b []byte
		for _, x := range l {
			b = append(b, reply(x)...)
		}
		return vnet.NewScriptConn([]vnet.Ev{{Data: b}}, io.EOF)
	}
	for _, a := range apis {
		b := append(reply("a"), reply("b")...)
		e1, e2 := len(reply("a")), len(b)
		ps := positions([]in{{b: reply("a")}, {b: reply("b")}}, t.Pick(3, 1))
		for i, p := range ps {
			for _, q := range ps[i:] {
				for k := 0; k < 4; k++ {
					if n++; !t.Mine(n) {
						continue
					}
					if t.Over() {
						t.NotExhaustive("time")
						return
					}
					evs := cuts(b, []int{p, q}, []int{k & 1, k >> 1})
					name := "replies " + vnet.Script(evs)
					// which request meets the first time-out
					first := -1
					if k&1 == 1 {
						first = p
					} else if k>>1 == 1 {
						first = q
					}
					mkc := func() *vnet.ScriptConn { return vnet.NewScriptConn(evs, io.EOF) }
					switch {
					case first < 0 || first >= e2:
						seq(a, name, []*vnet.ScriptConn{mkc(), spare("c", "d")}, []string{"a", "b"}, []string{"re a", "re b"}, 1)
					case first < e1:
						seq(a, name, []*vnet.ScriptConn{mkc(), spare("c", "d")}, []string{"a", "c", "d"}, []string{"", "re c", "re d"}, 2)
					default:
						seq(a, name, []*vnet.ScriptConn{mkc(), spare("c", "d")}, []string{"a", "b", "c", "d"}, []string{"re a", "", "re c", "re d"}, 2)
					}
				}
			}
		}
		// cut off
		for p := 0; p < e2; p++ {
			for _, eof := range []error{io.EOF, vnet.ErrReset} {
				if n++; !t.Mine(n) {
					continue
				}
				mkc := func() *vnet.ScriptConn { return vnet.NewScriptConn([]vnet.Ev{{Data: b[:p]}}, eof) }
				name := fmt.Sprint("cut off at ", p, " by ", eof)
				if p < e1 {
					seq(a, name, []*vnet.ScriptConn{mkc(), spare("c", "d")}, []string{"a", "c", "d"}, []string{"", "re c", "re d"}, 2)
				} else {
					seq(a, name, []*vnet.ScriptConn{mkc(), spare("c", "d")}, []string{"a", "b", "c", "d"}, []string{"re a", "", "re c", "re d"}, 2)
				}
			}
		}
		// two replies to one request, then another request
		{
			b3 := append(append(append([]byte{}, reply("2a")...), reply("x")...), reply("b")...)
			ends := len(reply("2a")) + len(reply("x"))
			for p := 0; p <= len(b3); p++ {
				for k := 0; k < 2; k++ {
					if n++; !t.Mine(n) {
						continue
					}
					evs := cuts(b3, []int{p}, []int{k})
					name := "two replies " + vnet.Script(evs)
					c := vnet.NewScriptConn(evs, io.EOF)
					switch {
					case k == 0 || p == len(b3):
						seq(a, name, []*vnet.ScriptConn{c, spare("c")}, []string{"2a", "b"}, []string{"re 2a&re x", "re b"}, 1)
					case p < ends:
						seq(a, name, []*vnet.ScriptConn{c, spare("c")}, []string{"2a", "c"}, []string{"", "re c"}, 2)
					default:
						seq(a, name, []*vnet.ScriptConn{c, spare("c")}, []string{"2a", "b", "c"}, []string{"re 2a&re x", "", "re c"}, 2)
					}
				}
			}
		}
		// writing the request fails at every byte
		out := len(msgFrame(tEcho, "a")) + len(msgFrame(tEcho, "b"))
		for p := 0; p < out; p++ {
			for _, e := range []error{os.ErrDeadlineExceeded, vnet.ErrReset} {
				if n++; !t.Mine(n) {
					continue
				}
				c := vnet.NewScriptConn([]vnet.Ev{{Data: b}}, io.EOF).FailWrite(p, e)
				name := fmt.Sprint("write fails at ", p)
				if p < len(msgFrame(tEcho, "a")) {
					seq(a, name, []*vnet.ScriptConn{c, spare("c", "d")}, []string{"a", "c", "d"}, []string{"", "re c", "re d"}, 2)
				} else {
					seq(a, name, []*vnet.ScriptConn{c, spare("c", "d")}, []string{"a", "b", "c", "d"}, []string{"re a", "", "re c", "re d"}, 2)
				}
			}
		}
		// replies that are no messages; closing fails as well
		for _, bad := range [][]byte{frame(nil), frame([]byte("hello")), {0xff, 0xff, 0xff, 0xff, 1}, frame([]byte("[]"))} {
			c := vnet.NewScriptConn([]vnet.Ev{{Data: append(append([]byte{}, bad...), b...)}}, io.EOF)
			c.CloseErr = vnet.ErrReset
			seq(a, "no message "+fmt.Sprint(bad), []*vnet.ScriptConn{c, spare("c", "d")}, []string{"a", "c", "d"}, []string{"", "re c", "re d"}, 2)
		}
		// nobody to connect to
		d = &dialer{err: errors.New("connection refused")}
		p := fresh()
		if _, err := a.call(p, tEcho, "a"); err == nil {
			t.Violate("no error", a.name+": success without a connection", nil)
		}
		d.err = nil
		d.conns = []*vnet.ScriptConn{spare("b")}
		if r, err := a.call(p, tEcho, "b"); err != nil || bodyOf(r) != "re b" {
			t.Violate("no reconnection", fmt.Sprint(a.name, ": after a failed dial: ", err), nil)
		}
		if _, err := a.call(p, tNobody, "b"); err == nil {
			t.Violate("no error", a.name+": success without a requester", nil)
		}
		t.Eval()
	}
	d = &dialer{conns: []*vnet.ScriptConn{spare("a")}}
	p := fresh()
	for i, f := range []func() (*fcrmessages.FCRMessage, error){
		func() (*fcrmessages.FCRMessage, error) { return p.RequestGatewayFromGateway(node(5), tEcho, "a") },
		func() (*fcrmessages.FCRMessage, error) { return p.RequestGatewayFromProvider(node(5), tEcho, "a") },
		func() (*fcrmessages.FCRMessage, error) { return p.RequestProvider(node(5), tEcho, "a") },
	} {
		if _, err := f(); err == nil || len(d.addrs) > 0 {
			t.Violate("unknown peer", fmt.Sprint(i, ": ", err, d.addrs), nil)
		}
	}
}

func main() {
	vh.Main(func(t *vh.T) {
		logging.SetLogLevel("fatal")
		serverSide(t)
		requestingSide(t)
		t.Assume("a time-out of a read delivers no bytes; the connections are scripted stand-ins for TCP connections with the semantics of net.Conn")
	})
}
