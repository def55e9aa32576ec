//go:build go1.21

// C26: requests reach exactly the handler registered for their type and port.
package main

import (
	"bytes"
	"context"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"net"
	"net/http"
	"os"
	"strings"
	"sync"
	"time"

	"github.com/ant0ine/go-json-rest/rest"

	"github.com/ConsenSys/fc-retrieval/common/pkg/fcrmessages"
	"github.com/ConsenSys/fc-retrieval/common/pkg/fcrp2pserver"
	"github.com/ConsenSys/fc-retrieval/common/pkg/fcrregistermgr"
	"github.com/ConsenSys/fc-retrieval/common/pkg/fcrrestserver"
	"github.com/ConsenSys/fc-retrieval/common/pkg/logging"
	"github.com/ConsenSys/fc-retrieval/common/pkg/register"

	"github.com/ConsenSys/fc-retrieval/common/verif/vh"
	"github.com/ConsenSys/fc-retrieval/common/verif/vlisten"
	"github.com/ConsenSys/fc-retrieval/common/verif/vnode"
	"github.com/ConsenSys/fc-retrieval/common/verif/vreq"
)

type msg = fcrmessages.FCRMessage

const wait = 10 * time.Second

var (
	t   *vh.T
	nw  *vlisten.Net
	seq int
)

// call is a handler having been reached.
type call struct {
	label int
	got   string
}

// reached are the handlers reached, in order.
type reached struct {
	mu sync.Mutex
	l  []call
}

func (r *reached) add(label int, m *msg) {
	b, err := m.FCRMsgToBytes()
	vnode.Must(err)
	r.mu.Lock()
	r.l = append(r.l, call{label, string(b)})
	r.mu.Unlock()
}

func (r *reached) take() []call {
	r.mu.Lock()
	defer r.mu.Unlock()
	l := r.l
	r.l = nil
	return l
}

func message(typ int32, text string) *msg {
	m := fcrmessages.CreateFCRMessage(typ, []byte(fmt.Sprintf(`{"text":%q}`, text)))
	vnode.Must(m.Sign(signer.Key, vnode.Ver))
	return m
}

var signer = vnode.NewIdent("signer", 3, "31")

// answer is what the handler of a label answers.
func answer(label int, m *msg) *msg {
	return fcrmessages.CreateFCRMessage(int32(9000+label), append([]byte{}, m.GetMessageBody()...))
}

func text(m *msg) string {
	b, err := m.FCRMsgToBytes()
	vnode.Must(err)
	return string(b)
}

// server is either kind of server.
type server interface {
	handler(port string, typ int32, label int)
	none(port string, typ int32)
	start() error
	// ask sends a request; it tells what was answered: "" for an error, or nobody there.
	ask(port string, m *msg) string
	kind() string
}

// --- REST

type restSrv struct {
	s *fcrrestserver.FCRRESTServer
	r *reached
	c *http.Client
}

func newRest(r *reached, ports []string) server {
	n := nw
	return &restSrv{fcrrestserver.NewFCRRESTServer(ports), r, &http.Client{Timeout: wait, Transport: &http.Transport{DisableKeepAlives: true,
		DialContext: func(_ context.Context, _, a string) (net.Conn, error) {
			p, _, err := net.SplitHostPort(a)
			vnode.Must(err)
			return n.Connect(":" + strings.TrimPrefix(p, "node-"))
		}}}}
}

func (s *restSrv) kind() string { return "REST server" }

func (s *restSrv) handler(port string, typ int32, label int) {
	back := s.s.AddHandler(port, typ, func(w rest.ResponseWriter, m *msg) {
		s.r.add(label, m)
		if err := w.WriteJson(answer(label, m)); err != nil {
			panic(err)
		}
	})
	if back != s.s {
		t.Violate("chain", "AddHandler does not return its server", nil)
	}
}

func (s *restSrv) none(port string, typ int32) { s.s.AddHandler(port, typ, nil) }

func (s *restSrv) start() error { return s.s.Start() }

func (s *restSrv) post(method, port, path string, body []byte) (int, string) {
	q, err := http.NewRequest(method, "http://node-"+port+path, bytes.NewReader(body))
	vnode.Must(err)
	q.Header.Set("Content-Type", "application/json")
	r, err := s.c.Do(q)
	if err != nil {
		return 0, err.Error()
	}
	defer r.Body.Close()
	b, err := io.ReadAll(r.Body)
	if err != nil {
		return 0, err.Error()
	}
	return r.StatusCode, string(b)
}

func (s *restSrv) ask(port string, m *msg) string {
	st, b := s.post("POST", port, "/v1", []byte(text(m)))
	if st != 200 {
		return ""
	}
	x, err := fcrmessages.FCRMsgFromBytes([]byte(b))
	if err != nil {
		return "unreadable: " + b
	}
	return text(x)
}

// --- P2P

type p2pSrv struct {
	s *fcrp2pserver.FCRP2PServer
	r *reached
	n *vlisten.Net
}

func newP2P(r *reached, ports []string) server {
	return &p2pSrv{fcrp2pserver.NewFCRP2PServer(ports, nil, wait), r, nw}
}

func (s *p2pSrv) kind() string { return "P2P server" }

func (s *p2pSrv) handler(port string, typ int32, label int) {
	back := s.s.AddHandler(port, typ, func(_ *fcrp2pserver.FCRServerReader, w *fcrp2pserver.FCRServerWriter, m *msg) error {
		s.r.add(label, m)
		return w.Write(answer(label, m), wait)
	})
	if back != s.s {
		t.Violate("chain", "AddHandler does not return its server", nil)
	}
}

func (s *p2pSrv) none(port string, typ int32) { s.s.AddHandler(port, typ, nil) }

func (s *p2pSrv) start() error { return s.s.Start() }

func (s *p2pSrv) ask(port string, m *msg) string {
	c, err := s.n.Connect(":" + port)
	if err != nil {
		return ""
	}
	defer c.Close()
	vnode.Must(c.SetDeadline(time.Now().Add(wait)))
	if err := vnode.WriteFrame(c, []byte(text(m))); err != nil {
		return ""
	}
	b, err := vnode.ReadFrame(c)
	if err != nil {
		return ""
	}
	x, err := fcrmessages.FCRMsgFromBytes(b)
	if err != nil {
		return "unreadable: " + string(b)
	}
	if x.GetMessageType() == fcrmessages.InvalidMessageResponseType {
		return ""
	}
	return text(x)
}

// --- registration and start, in every order

var types = []int32{7, 12, 31}

func mine() bool {
	seq++
	if t.Over() {
		t.NotExhaustive("time")
		return false
	}
	return t.Mine(seq)
}

// configurations runs every sequence of registrations and starts, and asks for everything afterwards.
func configurations(make_ func(*reached, []string) server, ports []string, depth int) {
	type op struct {
		name string
		do   func(s server, label int, m *model)
	}
	ops := []op{}
	for _, p := range []string{"a", "b", "x"} {
		for _, ty := range types[:2] {
			p, ty := p, ty
			ops = append(ops, op{fmt.Sprintf("register type %d at %s", ty, p), func(s server, l int, m *model) {
				s.handler(p, ty, l)
				if !m.started {
					m.h[fmt.Sprint(p, ty)] = l
				}
			}})
		}
	}
	ops = append(ops, op{"register nothing for type 7 at a", func(s server, l int, m *model) {
		s.none("a", 7)
		if !m.started {
			delete(m.h, "a7")
		}
	}}, op{"start", func(s server, l int, m *model) {
		err := s.start()
		ok := !m.started
		seen := map[string]bool{}
		for _, p := range ports {
			if seen[p] || m.busy[p] {
				ok = false
			}
			seen[p] = true
		}
		if ok != (err == nil) {
			m.bad("start", "starting gives %v", err)
		}
		if err == nil {
			m.started = true
		}
		up := 0
		if m.started {
			up = len(ports)
		}
		if n := nw.Ports(); n != up {
			m.bad("ports", "%d ports are listened at, not %d", n, up)
		}
	}}, op{"another process takes b", func(s server, l int, m *model) {
		if !m.started {
			m.busy["b"], nw.Busy[":b"] = true, true
		}
	}}, op{"another process frees b", func(s server, l int, m *model) {
		m.busy["b"], nw.Busy[":b"] = false, false
	}})
	var rec func(pre []int)
	run := func(l []int) {
		names := []string{}
		for _, i := range l {
			names = append(names, ops[i].name)
		}
		nw = vlisten.New()
		r := &reached{}
		s := make_(r, ports)
		desc := fmt.Sprintf("%s at %v: %s", s.kind(), ports, strings.Join(names, ", "))
		t.Case(func() string { return desc })
		m := &model{h: map[string]int{}, busy: map[string]bool{}, desc: desc}
		for i, k := range l {
			ops[k].do(s, i+1, m)
			t.Transition()
		}
		for _, p := range []string{"a", "b", "x"} {
			for _, ty := range types {
				q := message(ty, desc)
				want, label := "", 0
				for _, x := range ports {
					if x == p && m.started {
						label = m.h[fmt.Sprint(p, ty)]
					}
				}
				if label != 0 {
					want = text(answer(label, q))
				}
				got := s.ask(p, q)
				m.calls(r.take(), label, q, fmt.Sprintf("type %d sent to %s", ty, p))
				if got != want {
					m.bad("reply", "type %d sent to %s is answered %q, not %q", ty, p, got, want)
				}
				t.Eval()
				t.Outcome(fmt.Sprintf("%s: started %v, handled %v", s.kind(), m.started, label != 0))
			}
		}
		nw.Down()
		t.State(desc)
		t.Trace()
	}
	rec = func(pre []int) {
		if mine() {
			run(pre)
		}
		if len(pre) == depth || t.Over() {
			return
		}
		for i := range ops {
			rec(append(append([]int{}, pre...), i))
		}
	}
	rec(nil)
}

type model struct {
	h       map[string]int
	busy    map[string]bool
	started bool
	desc    string
}

func (m *model) bad(key, f string, a ...interface{}) {
	t.Violate(strings.ReplaceAll(m.desc[:4], " ", "")+":"+key, m.desc+": "+fmt.Sprintf(f, a...), m.desc)
}

// calls checks that exactly one handler was reached, by exactly this message; label 0 for none.
func (m *model) calls(l []call, label int, q *msg, what string) {
	if label == 0 {
		if len(l) != 0 {
			m.bad("handler", "%s reaches handler %d", what, l[0].label)
		}
		return
	}
	if len(l) != 1 || l[0].label != label {
		m.bad("handler", "%s reaches %v, not handler %d once", what, labels(l), label)
		return
	}
	if l[0].got != text(q) {
		m.bad("message", "%s arrives at its handler as %s", what, l[0].got)
	}
}

func labels(l []call) []int {
	out := []int{}
	for _, c := range l {
		out = append(out, c.label)
	}
	return out
}

// --- what is posted

func bodies() {
	nw = vlisten.New()
	r := &reached{}
	s := newRest(r, []string{"a", "b"}).(*restSrv)
	s.handler("a", 7, 1)
	s.handler("b", 7, 2)
	s.handler("a", 12, 3)
	s.handler("a", 0, 4)
	s.s.AddHandler("b", 12, func(w rest.ResponseWriter, m *msg) { r.add(5, m) })
	s.s.AddHandler("b", 31, func(w rest.ResponseWriter, m *msg) { r.add(6, m); rest.Error(w, "no", 418) })
	s.s.AddHandler("a", 31, func(w rest.ResponseWriter, m *msg) { r.add(7, m); panic("a handler gives up") })
	vnode.Must(s.start())
	m := &model{desc: "REST server, what is posted"}
	good := text(message(7, "x"))
	mutate := func(f func(map[string]json.RawMessage)) string {
		x := map[string]json.RawMessage{}
		vnode.Must(json.Unmarshal([]byte(good), &x))
		f(x)
		b, err := json.Marshal(x)
		vnode.Must(err)
		return string(b)
	}
	bad := map[string]string{"empty": "", "blank": "  \n", "no JSON": "message", "half": good[:len(good)/2], "followed by more": good + "{}", "a list": "[" + good + "]", "a text": `"7"`, "a number": "7", "not UTF-8": "\xff\xfe"}
	for name, v := range map[string]string{"a text": `"7"`, "a broken number": "7.5", "too large": "4294967303", "a list": "[7]", "true": "true"} {
		v := v
		bad["a type that is "+name] = mutate(func(x map[string]json.RawMessage) { x["message_type"] = json.RawMessage(v) })
	}
	bad["a body that is no base64"] = mutate(func(x map[string]json.RawMessage) { x["message_body"] = json.RawMessage(`"?"`) })
	for _, ty := range []string{"-7", "8", "2147483647", "-2147483648", "263", "65543"} {
		ty := ty
		bad["of type "+ty] = mutate(func(x map[string]json.RawMessage) { x["message_type"] = json.RawMessage(ty) })
	}
	for _, p := range []string{"a", "b"} {
		for name, b := range bad {
			for _, path := range []string{"/v1"} {
				st, body := s.post("POST", p, path, []byte(b))
				t.Eval()
				t.State(fmt.Sprint("post ", p, name))
				if st < 400 || st > 599 {
					m.bad("bad:"+name, "posting something %s to %s is answered %d %s", name, p, st, body)
				}
				m.calls(r.take(), 0, nil, "a request that is "+name)
			}
		}
		for _, q := range []struct{ method, path string }{{"GET", "/v1"}, {"PUT", "/v1"}, {"DELETE", "/v1"}, {"POST", "/"}, {"POST", "/v2"}, {"POST", "/v1/x"}} {
			st, body := s.post(q.method, p, q.path, []byte(good))
			t.Eval()
			t.State(fmt.Sprint("post ", p, q))
			if st < 400 || st > 599 {
				m.bad("path", "%s %s is answered %d %s", q.method, q.path, st, body)
			}
			m.calls(r.take(), 0, nil, q.method+" "+q.path)
		}
		for i := 0; i < 2; i++ { // twice, as a handler may give up in between
			for _, c := range []struct {
				typ   int32
				port  string
				label int
				st    int
			}{{7, "a", 1, 200}, {7, "b", 2, 200}, {12, "a", 3, 200}, {12, "b", 5, 200}, {31, "b", 6, 418}, {31, "a", 7, 500}, {0, "a", 4, 200}, {0, "b", 0, 400}} {
				if c.port != p {
					continue
				}
				for _, body := range []string{"", "x", strings.Repeat("long ", 30000), "\x00\n\"<>&"} {
					q := message(c.typ, body)
					st, got := s.post("POST", p, "/v1", []byte(text(q)))
					t.Eval()
					t.State(fmt.Sprint("post ", c, len(body)))
					m.calls(r.take(), c.label, q, fmt.Sprintf("type %d sent to %s", c.typ, p))
					if st != c.st {
						m.bad("status", "type %d sent to %s is answered %d %s, its handler gives %d", c.typ, p, st, got, c.st)
					}
					if c.label > 0 && c.label < 5 {
						x, err := fcrmessages.FCRMsgFromBytes([]byte(got))
						if err != nil || text(x) != text(answer(c.label, q)) {
							m.bad("reply", "type %d sent to %s is answered %s", c.typ, p, got)
						}
					} else if c.label == 5 && got != "" {
						m.bad("reply", "a handler that answers nothing has %q answered", got)
					}
				}
			}
		}
	}
	nw.Down()
}

// --- what arrives on a connection

type frame struct {
	name  string
	data  []byte
	label func(port string) int    // who handles it
	reply func(port string) []*msg // what comes back
	ends  func(port string) bool   // whether the connection is closed after it
	eats  bool                     // its handler reads the next message itself
	typ   int32
}

func connections() {
	none := func(string) int { return 0 }
	silent := func(string) []*msg { return nil }
	invalid := func(string) []*msg {
		m, err := fcrmessages.EncodeInvalidMessageResponse()
		vnode.Must(err)
		return []*msg{m}
	}
	stays, ends := func(string) bool { return false }, func(string) bool { return true }
	at := func(port string, f, g func(string) []*msg) func(string) []*msg {
		return func(p string) []*msg {
			if p == port {
				return f(p)
			}
			return g(p)
		}
	}
	fs := []frame{}
	add := func(f frame, typ int32) {
		f.typ = typ
		if typ != 0 {
			f.data = vnode.Frame([]byte(text(message(typ, f.name))))
		}
		fs = append(fs, f)
	}
	ans := func(label, times int) func(string) []*msg {
		return func(string) []*msg {
			out := []*msg{}
			for i := 0; i < times; i++ {
				out = append(out, fcrmessages.CreateFCRMessage(int32(9000+label), nil))
			}
			return out
		}
	}
	both := func(a, b int) func(string) int {
		return func(p string) int {
			if p == "a" {
				return a
			}
			return b
		}
	}
	add(frame{name: "answered", label: both(1, 2), reply: at("a", ans(1, 1), ans(2, 1)), ends: stays}, 7)
	add(frame{name: "answered at a, refused at b", label: both(3, 0), reply: at("a", ans(3, 1), invalid), ends: stays}, 12)
	add(frame{name: "unknown", label: none, reply: invalid, ends: stays}, 31)
	add(frame{name: "not answered", label: both(4, 4), reply: silent, ends: stays}, 14)
	add(frame{name: "answered twice", label: both(5, 5), reply: ans(5, 2), ends: stays}, 15)
	add(frame{name: "handler fails", label: both(6, 6), reply: silent, ends: ends}, 16)
	add(frame{name: "answered, then handler fails at b", label: both(7, 8), reply: at("a", ans(7, 1), ans(8, 1)), ends: func(p string) bool { return p == "b" }}, 17)
	add(frame{name: "handler reads on", label: both(9, 9), reply: ans(9, 1), ends: stays, eats: true}, 18)
	fs = append(fs, frame{name: "no message", data: vnode.Frame([]byte("message")), label: none, reply: silent, ends: ends},
		frame{name: "empty", data: vnode.Frame(nil), label: none, reply: silent, ends: ends},
		frame{name: "too long", data: []byte{0xff, 0xff, 0xff, 0xff}, label: none, reply: silent, ends: ends})

	start := func() (*p2pSrv, *reached) {
		nw = vlisten.New()
		r := &reached{}
		s := newP2P(r, []string{"a", "b"}).(*p2pSrv)
		h := func(port string, typ int32, label, times int, err error) {
			s.s.AddHandler(port, typ, func(_ *fcrp2pserver.FCRServerReader, w *fcrp2pserver.FCRServerWriter, m *msg) error {
				r.add(label, m)
				for i := 0; i < times; i++ {
					if e := w.Write(answer(label, m), wait); e != nil {
						return e
					}
				}
				return err
			})
		}
		fail := errors.New("cannot go on")
		h("a", 7, 1, 1, nil)
		h("b", 7, 2, 1, nil)
		h("a", 12, 3, 1, nil)
		for _, p := range []string{"a", "b"} {
			h(p, 14, 4, 0, nil)
			h(p, 15, 5, 2, nil)
			h(p, 16, 6, 0, fail)
			s.s.AddHandler(p, 18, func(rd *fcrp2pserver.FCRServerReader, w *fcrp2pserver.FCRServerWriter, m *msg) error {
				r.add(9, m)
				x, err := rd.Read(wait)
				if err != nil {
					return err
				}
				return w.Write(answer(9, x), wait)
			})
		}
		h("a", 17, 7, 1, nil)
		h("b", 17, 8, 1, fail)
		vnode.Must(s.start())
		return s, r
	}
	s, r := start()

	run := func(port string, l []int, together bool) {
		names := []string{}
		for _, i := range l {
			names = append(names, fs[i].name)
		}
		desc := fmt.Sprintf("P2P server, port %s, sent %v: %s", port, map[bool]string{false: "one by one", true: "in one go"}[together], strings.Join(names, ", "))
		t.Case(func() string { return desc })
		m := &model{desc: desc}
		// what should happen
		type exp struct {
			label int
			m     string
		}
		calls, replies := []exp{}, []string{}
		alive := true
		for i := 0; i < len(l) && alive; i++ {
			f := fs[l[i]]
			if f.typ != 0 && f.label(port) != 0 {
				calls = append(calls, exp{f.label(port), string(f.data[4:])})
			}
			body := f
			if f.eats {
				if i+1 == len(l) {
					// it waits for the last probe
					body = frame{}
				} else {
					i++
					body = fs[l[i]]
					if body.typ == 0 {
						alive = false
						break
					}
				}
			}
			for _, x := range f.reply(port) {
				if x.GetMessageType() == fcrmessages.InvalidMessageResponseType {
					replies = append(replies, text(x))
					continue
				}
				b := []byte(nil)
				if body.typ != 0 {
					q, err := fcrmessages.FCRMsgFromBytes(body.data[4:])
					vnode.Must(err)
					b = q.GetMessageBody()
				} else {
					b = probe.GetMessageBody()
				}
				replies = append(replies, text(fcrmessages.CreateFCRMessage(x.GetMessageType(), b)))
			}
			if f.ends(port) {
				alive = false
			}
			if f.eats && body.typ == 0 {
				// the probe was taken
				alive = true
				calls = append(calls, exp{-1, ""})
			}
		}
		taken := len(calls) > 0 && calls[len(calls)-1].label == -1
		if taken {
			calls = calls[:len(calls)-1]
		} else if alive {
			label := map[string]int{"a": 1, "b": 2}[port]
			calls = append(calls, exp{label, text(probe)})
			replies = append(replies, text(answer(label, probe)))
		}
		// what happens
		c, err := nw.Connect(":" + port)
		if err != nil {
			m.bad("connect", "%v", err)
			return
		}
		vnode.Must(c.SetDeadline(time.Now().Add(wait)))
		go func() {
			all := []byte{}
			for _, i := range l {
				all = append(all, fs[i].data...)
				if !together {
					if _, err := c.Write(fs[i].data); err != nil {
						return
					}
				}
			}
			last := vnode.Frame([]byte(text(probe)))
			if together {
				last = append(all, last...)
			}
			c.Write(last)
		}()
		got := []string{}
		closed := false
		for len(got) < len(replies)+1 {
			if len(got) == len(replies) {
				if alive {
					break // anything more would come before the answer to the last message
				}
			}
			b, err := vnode.ReadFrame(c)
			if err != nil {
				closed = true
				if os.IsTimeout(err) {
					m.bad("silence", "%d of %d replies come, then nothing", len(got), len(replies))
				}
				break
			}
			x, err := fcrmessages.FCRMsgFromBytes(b)
			if err != nil {
				m.bad("reply", "an unreadable reply %q", b)
				break
			}
			got = append(got, text(x))
		}
		c.Close()
		if strings.Join(got, "\n") != strings.Join(replies, "\n") {
			m.bad("reply", "answered %v, not %v", got, replies)
		}
		if closed && alive {
			m.bad("closed", "the connection is closed")
		}
		cs := r.take()
		ok := len(cs) == len(calls)
		for i := 0; ok && i < len(cs); i++ {
			ok = cs[i].label == calls[i].label && cs[i].got == calls[i].m
		}
		if !ok {
			want := []int{}
			for _, e := range calls {
				want = append(want, e.label)
			}
			m.bad("handler", "handlers %v are reached, not %v, or with other messages", labels(cs), want)
		}
		t.Eval()
		t.Transition()
		t.Outcome(fmt.Sprintf("%d replies, closed %v", len(got), closed))
		t.State(desc)
		t.Trace()
	}
	depth := t.Pick(3, 4)
	k := 0
	var rec func(pre []int)
	rec = func(pre []int) {
		for _, p := range []string{"a", "b"} {
			for _, tog := range []bool{false, true} {
				if mine() {
					if k++; k%2000 == 0 {
						nw.Down()
						s, r = start()
					}
					run(p, pre, tog)
				}
			}
		}
		if len(pre) == depth || t.Over() {
			return
		}
		for i := range fs {
			rec(append(append([]int{}, pre...), i))
		}
	}
	rec(nil)
	_ = s
	nw.Down()
}

var probe = message(7, "the last")

// --- several requests at once

func atOnce(make_ func(*reached, []string) server) {
	type req struct {
		port string
		typ  int32
	}
	rs := []req{{"a", 7}, {"a", 12}, {"b", 7}, {"b", 12}}
	perms := [][]int{{0, 1, 2}, {0, 2, 1}, {1, 0, 2}, {1, 2, 0}, {2, 0, 1}, {2, 1, 0}}
	nw = vlisten.New()
	type arrived struct {
		label int
		m     *msg
		goOn  chan bool
	}
	ch := make(chan arrived, 10)
	r := &reached{}
	s := make_(r, []string{"a", "b"})
	for i, q := range rs {
		label := i + 1
		switch x := s.(type) {
		case *restSrv:
			x.s.AddHandler(q.port, q.typ, func(w rest.ResponseWriter, m *msg) {
				a := arrived{label, m, make(chan bool)}
				ch <- a
				<-a.goOn
				if err := w.WriteJson(answer(label, m)); err != nil {
					panic(err)
				}
			})
		case *p2pSrv:
			x.s.AddHandler(q.port, q.typ, func(_ *fcrp2pserver.FCRServerReader, w *fcrp2pserver.FCRServerWriter, m *msg) error {
				a := arrived{label, m, make(chan bool)}
				ch <- a
				<-a.goOn
				return w.Write(answer(label, m), wait)
			})
		}
	}
	vnode.Must(s.start())
	for n := 0; n < 64; n++ {
		pick := []int{n % 4, n / 4 % 4, n / 16}
		for _, p := range perms {
			if !mine() {
				continue
			}
			desc := fmt.Sprintf("%s: at once %v, handled in the order %v", s.kind(), pick, p)
			t.Case(func() string { return desc })
			m := &model{desc: desc}
			var got [3]chan string
			var in [3]*arrived
			var q [3]*msg
			for i := range got {
				q[i] = message(rs[pick[i]].typ, fmt.Sprint("request ", i))
				got[i] = make(chan string, 1)
				go func(i int) { got[i] <- s.ask(rs[pick[i]].port, q[i]) }(i)
			}
			ok := true
			for range got {
				select {
				case a := <-ch:
					for i := range q {
						if text(q[i]) == text(a.m) {
							if in[i] != nil || a.label != pick[i]+1 {
								m.bad("handler", "request %d reaches handler %d", i, a.label)
							}
							a := a
							in[i] = &a
						}
					}
				case <-time.After(wait):
					m.bad("handler", "not all of three requests reach a handler while others are being handled")
					ok = false
				}
			}
			for _, i := range p {
				if in[i] == nil {
					if ok {
						m.bad("handler", "request %d reaches no handler", i)
					}
					continue
				}
				in[i].goOn <- true
				select {
				case g := <-got[i]:
					if want := text(answer(pick[i]+1, q[i])); g != want {
						m.bad("reply", "request %d is answered %q, not %q", i, g, want)
					}
				case <-time.After(wait + time.Second):
					m.bad("reply", "request %d is not answered", i)
				}
			}
			t.Eval()
			t.State(desc)
			t.Transition()
			t.Trace()
		}
	}
	nw.Down()
}

// --- requesters

func requesters() {
	g := vnode.NewIdent("gateway", 5, "50")
	gr := register.GatewayRegister{NodeID: g.Hex, Address: g.Wallet.Addr.String(), RootSigningKey: vnode.RootPub, SigningKey: g.Pub, RegionCode: "AU",
		NetworkInfoGateway: "gg", NetworkInfoProvider: "gp", NetworkInfoClient: "gc", NetworkInfoAdmin: "ga"}
	p := vnode.NewIdent("provider", 6, "60")
	pr := register.ProviderRegister{NodeID: p.Hex, Address: p.Wallet.Addr.String(), RootSigningKey: vnode.RootPub, SigningKey: p.Pub, RegionCode: "AU",
		NetworkInfoGateway: "pg", NetworkInfoClient: "pc", NetworkInfoAdmin: "pa"}
	none := vnode.NewIdentID("77", 7)
	// nodes registered without the address asked for
	g2, g3, p2 := vnode.NewIdent("gateway 2", 7, "51"), vnode.NewIdent("gateway 3", 8, "52"), vnode.NewIdent("provider 2", 9, "61")
	gr2, gr3, pr2 := gr, gr, pr
	gr2.NodeID, gr2.NetworkInfoGateway = g2.Hex, ""
	gr3.NodeID, gr3.NetworkInfoProvider = g3.Hex, ""
	pr2.NodeID, pr2.NetworkInfoGateway = p2.Hex, ""
	gs, err := json.Marshal([]register.GatewayRegister{gr, gr2, gr3})
	vnode.Must(err)
	ps, err := json.Marshal([]register.ProviderRegister{pr, pr2})
	vnode.Must(err)
	vreq.Srv = &vreq.Register{Gateways: gs, Providers: ps}
	mgr := fcrregistermgr.NewFCRRegisterMgr("http://register", true, true, 100*time.Hour)
	vnode.Must(mgr.Start())
	mgr.Refresh()
	depth := t.Pick(3, 4)
	names := []string{"add a requester for 7", "add a requester for 12", "add a failing requester for 7", "add none for 7", "start"}
	run := func(l []int) {
		ns := []string{}
		for _, i := range l {
			ns = append(ns, names[i])
		}
		desc := "P2P server, requests: " + strings.Join(ns, ", ")
		t.Case(func() string { return desc })
		m := &model{desc: desc}
		nw = vlisten.New()
		for _, a := range []string{"gg", "gp", "pg"} {
			ln, err := vlisten.Listen("tcp", a)
			vnode.Must(err)
			go func() {
				c, err := ln.Accept()
				for err == nil {
					go io.Copy(io.Discard, c)
					c, err = ln.Accept()
				}
			}()
		}
		s := fcrp2pserver.NewFCRP2PServer([]string{"a"}, mgr, wait)
		type got struct {
			label int
			args  []interface{}
		}
		calls := []got{}
		want := map[int32]int{}
		started := false
		answers := map[int]*msg{}
		for i, k := range l {
			label := i + 1
			answers[label] = message(99, fmt.Sprint("answer ", label))
			add := func(ty int32, fail bool) {
				back := s.AddRequester(ty, func(_ *fcrp2pserver.FCRServerReader, w *fcrp2pserver.FCRServerWriter, args ...interface{}) (*msg, error) {
					calls = append(calls, got{label, args})
					if fail {
						return nil, fmt.Errorf("requester %d fails", label)
					}
					return answers[label], nil
				})
				if back != s {
					m.bad("chain", "AddRequester does not return its server")
				}
				if !started {
					want[ty] = label
					if fail {
						want[ty] = -label
					}
				}
			}
			switch k {
			case 0:
				add(7, false)
			case 1:
				add(12, false)
			case 2:
				add(7, true)
			case 3:
				s.AddRequester(7, nil)
				if !started {
					delete(want, 7)
				}
			case 4:
				err := s.Start()
				if (err == nil) == started {
					m.bad("start", "starting gives %v", err)
				}
				started = true
			}
			t.Transition()
		}
		for _, to := range []struct {
			name string
			addr string
			f    func(ty int32, args ...interface{}) (*msg, error)
		}{
			{"gateway from gateway", "gg", func(ty int32, a ...interface{}) (*msg, error) { return s.RequestGatewayFromGateway(g.ID, ty, a...) }},
			{"gateway from provider", "gp", func(ty int32, a ...interface{}) (*msg, error) { return s.RequestGatewayFromProvider(g.ID, ty, a...) }},
			{"provider", "pg", func(ty int32, a ...interface{}) (*msg, error) { return s.RequestProvider(p.ID, ty, a...) }},
			{"gateway without an address for gateways", "", func(ty int32, a ...interface{}) (*msg, error) { return s.RequestGatewayFromGateway(g2.ID, ty, a...) }},
			{"provider without an address for gateways", "", func(ty int32, a ...interface{}) (*msg, error) { return s.RequestProvider(p2.ID, ty, a...) }},
			{"unknown gateway", "", func(ty int32, a ...interface{}) (*msg, error) { return s.RequestGatewayFromGateway(none, ty, a...) }},
			{"unknown gateway from provider", "", func(ty int32, a ...interface{}) (*msg, error) { return s.RequestGatewayFromProvider(none, ty, a...) }},
			{"unknown provider", "", func(ty int32, a ...interface{}) (*msg, error) { return s.RequestProvider(none, ty, a...) }},
		} {
			if to.name == "gateway from provider" {
				// a server is used by one or the other, which share a connection; start over
				continue
			}
			one(m, to.name, to.addr, to.f, want, started, func() (n []int, args [][]interface{}) {
				for _, c := range calls {
					n, args = append(n, c.label), append(args, c.args)
				}
				calls = nil
				return
			}, answers)
		}
		t.State(desc)
		t.Trace()
		nw.Down()
	}
	var rec func(pre []int)
	rec = func(pre []int) {
		if mine() {
			run(pre)
		}
		if len(pre) == depth {
			return
		}
		for i := range names {
			rec(append(append([]int{}, pre...), i))
		}
	}
	rec(nil)
	// from a provider
	for _, started := range []bool{false, true} {
		for _, reg := range []bool{false, true} {
			if !mine() {
				continue
			}
			nw = vlisten.New()
			ln, err := vlisten.Listen("tcp", "gp")
			vnode.Must(err)
			go func() {
				for {
					c, err := ln.Accept()
					if err != nil {
						return
					}
					go io.Copy(io.Discard, c)
				}
			}()
			s := fcrp2pserver.NewFCRP2PServer([]string{"a"}, mgr, wait)
			m := &model{desc: fmt.Sprintf("P2P server of a provider, started %v, requester %v", started, reg)}
			want := map[int32]int{}
			var as [][]interface{}
			var ls []int
			ans := message(99, "answer")
			if reg {
				want[7] = 1
				s.AddRequester(7, func(_ *fcrp2pserver.FCRServerReader, w *fcrp2pserver.FCRServerWriter, args ...interface{}) (*msg, error) {
					ls, as = append(ls, 1), append(as, args)
					return ans, nil
				})
			}
			if started {
				vnode.Must(s.Start())
			}
			one(m, "gateway from provider", "gp", func(ty int32, a ...interface{}) (*msg, error) { return s.RequestGatewayFromProvider(g.ID, ty, a...) }, want, started, func() ([]int, [][]interface{}) {
				l, a := ls, as
				ls, as = nil, nil
				return l, a
			}, map[int]*msg{1: ans})
			m.desc += ", gateway without an address for providers"
			one(m, "gateway from provider", "", func(ty int32, a ...interface{}) (*msg, error) { return s.RequestGatewayFromProvider(g3.ID, ty, a...) }, want, started, func() ([]int, [][]interface{}) {
				l, a := ls, as
				ls, as = nil, nil
				return l, a
			}, map[int]*msg{1: ans})
			t.State(m.desc)
			nw.Down()
		}
	}
}

// one asks for requests of all types and compares.
func one(m *model, name, addr string, f func(ty int32, args ...interface{}) (*msg, error), want map[int32]int, started bool, calls func() ([]int, [][]interface{}), answers map[int]*msg) {
	connected := false
	for _, ty := range types {
		x := &struct{ n int }{1}
		nw.Dialed()
		r, err := f(ty, x, "second", 3)
		ls, as := calls()
		t.Eval()
		label := want[ty]
		what := fmt.Sprintf("a request of type %d to %s", ty, name)
		if !started || label == 0 || addr == "" {
			if err == nil || r != nil {
				m.bad("request", "%s gives %v, %v", what, r, err)
			}
			for _, d := range nw.Dialed() {
				if d != "" {
					m.bad("requester", "%s connects to %s", what, d)
				}
			}
			if len(ls) > 0 {
				m.bad("requester", "%s reaches %v", what, ls)
			}
			continue
		}
		fail := label < 0
		if fail {
			label = -label
		}
		if len(ls) != 1 || ls[0] != label {
			m.bad("requester", "%s reaches requesters %v, not %d once", what, ls, label)
		} else if a := as[0]; len(a) != 3 || a[0] != interface{}(x) || a[1] != interface{}("second") || a[2] != interface{}(3) {
			m.bad("arguments", "%s reaches its requester with %v", what, a)
		}
		if fail {
			if err == nil || r != nil {
				m.bad("request", "%s, whose requester fails, gives %v, %v", what, r, err)
			}
		} else if err != nil || r != answers[label] {
			m.bad("request", "%s gives %v, %v", what, r, err)
		}
		if d := nw.Dialed(); !(len(d) == 1 && d[0] == addr && !connected || len(d) == 0 && connected) {
			m.bad("address", "%s connects to %v, not %s", what, d, addr)
		}
		connected = !fail
	}
}

func main() {
	vh.Main(func(tt *vh.T) {
		t = tt
		logging.Init1("fatal", "STDOUT", "c26")
		depth := t.Pick(4, 5)
		for _, mk := range []func(*reached, []string) server{newRest, newP2P} {
			configurations(mk, []string{"a", "b"}, depth)
			configurations(mk, []string{"a"}, depth-1)
			configurations(mk, []string{"a", "a"}, depth-1)
			configurations(mk, nil, depth-2)
			atOnce(mk)
		}
		if t.Shard == 0 {
			bodies()
		}
		connections()
		requesters()
		t.Assume("servers listen at ports of a network of this process; the real network is used for the gateway and provider as a whole")
	})
}
