//go:build go1.21

// C12: every interleaving (to a bound) of concurrent requests over the P2P
// server's pooled connections, to peers that answer, hang up, stay silent,
// answer late or answer rubbish; and of requests between two real servers.
package main

import (
	"encoding/binary"
	"encoding/json"
	"errors"
	"fmt"
	"net"
	"net/http"
	"strings"
	"time"

	"github.com/ConsenSys/fc-retrieval/common/pkg/fcrmessages"
	"github.com/ConsenSys/fc-retrieval/common/pkg/fcrp2pserver"
	"github.com/ConsenSys/fc-retrieval/common/pkg/fcrregistermgr"
	"github.com/ConsenSys/fc-retrieval/common/pkg/logging"
	"github.com/ConsenSys/fc-retrieval/common/pkg/nodeid"
	"github.com/ConsenSys/fc-retrieval/common/pkg/register"
	"github.com/ConsenSys/fc-retrieval/common/verif/vh"
	"github.com/ConsenSys/fc-retrieval/common/verif/vnet"
	"github.com/ConsenSys/fc-retrieval/common/verif/vsched"
)

const (
	tReq    = 9900 // one request, one reply
	tNested = 9901 // its handler first asks back
	tUnused = 9902
	timeout = time.Second
)

func hexID(i int) string { return fmt.Sprintf("%02x", i+1) + strings.Repeat("0", 62) }

var nodes [4]*nodeid.NodeID

func init() {
	for i := range nodes {
		n, err := nodeid.NewNodeIDFromHexString(hexID(i))
		if err != nil {
			panic(err)
		}
		nodes[i] = n
	}
}

func msg(typ int32, body string) *fcrmessages.FCRMessage {
	b, _ := json.Marshal(body)
	return fcrmessages.CreateFCRMessage(typ, b)
}

func bodyOf(m *fcrmessages.FCRMessage) string {
	var s string
	json.Unmarshal(m.GetMessageBody(), &s)
	return s
}

func frameOf(m *fcrmessages.FCRMessage) []byte {
	b, err := m.FCRMsgToBytes()
	if err != nil {
		panic(err)
	}
	out := make([]byte, 4, 4+len(b))
	binary.BigEndian.PutUint32(out, uint32(len(b)))
	return append(out, b...)
}

// manager is a real register manager that knows the nodes; it is not a subject here.
func manager() *fcrregistermgr.FCRRegisterMgr {
	l, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		panic(err)
	}
	go http.Serve(l, http.HandlerFunc(func(w http.ResponseWriter, q *http.Request) {
		var g []register.GatewayRegister
		var p []register.ProviderRegister
		for i := range nodes[:3] {
			g = append(g, register.GatewayRegister{NodeID: hexID(i), NetworkInfoGateway: fmt.Sprintf("g%d", i), NetworkInfoProvider: fmt.Sprintf("g%d", i)})
			p = append(p, register.ProviderRegister{NodeID: hexID(i), NetworkInfoGateway: fmt.Sprintf("p%d", i)})
		}
		if strings.HasPrefix(q.URL.Path, "/registers/gateway") {
			json.NewEncoder(w).Encode(g)
		} else {
			json.NewEncoder(w).Encode(p)
		}
	}))
	m := fcrregistermgr.NewFCRRegisterMgr("http://"+l.Addr().String(), true, true, time.Hour)
	if err := m.Start(); err != nil {
		panic(err)
	}
	m.Refresh()
	return m
}

// ---------------------------------------------------------------- peers

// conn is one connection to a peer as the harness sees it.
type conn struct {
	peer   *peer
	plan   string
	node   *vnet.SConn // the requesting node's end
	end    *vnet.SConn // the peer's end
	opened int
	bad    bool // the peer misbehaved on it
	busy   bool // a request was written and its reply not read
	closed int  // when the node closed it
	reqs   int
}

type peer struct {
	name  string
	plans []string
	conns [16]*conn
	n     int
	dials int
}

type result struct {
	by         string
	to         string
	body       string
	start, end int
	t0, t1     time.Time
	got        string
	err        error
	done       bool
}

type world struct {
	x     *vsched.X
	peers map[string]*peer
	res   [16]*result
	nRes  int
	bad   string
}

func (w *world) fail(format string, a ...interface{}) {
	if w.bad == "" {
		w.bad = fmt.Sprintf(format, a...)
	}
}

func (w *world) dial(addr string) (net.Conn, error) {
	vsched.Point("dial " + addr)
	p := w.peers[addr]
	if p == nil {
		return nil, errors.New("connection refused")
	}
	plan := "" // behaves
	if p.dials < len(p.plans) {
		plan = p.plans[p.dials]
	}
	p.dials++
	if strings.HasPrefix(plan, "R") {
		return nil, errors.New("connection refused")
	}
	if strings.HasPrefix(plan, "S") {
		vsched.Sleep(3 * timeout)
		plan = plan[1:]
	}
	c := &conn{peer: p, plan: plan, opened: vsched.Steps()}
	a, b := vnet.SPipe(fmt.Sprintf("%s/%d", addr, p.n))
	c.node, c.end = a, b
	p.conns[p.n] = c
	p.n++
	a.OnWrite = func(*vnet.SConn) {
		for _, o := range p.conns[:p.n] {
			if o != c && o.busy {
				w.fail("two connections to %s in use at once", addr)
			}
		}
		if c.busy {
			w.fail("a request was written to %s while another waits for its reply on the same connection", addr)
		}
		c.busy = true
	}
	a.OnRead = func(*vnet.SConn) {
		if a.Buffered() == 0 {
			c.busy = false
		}
	}
	a.OnClose = func(*vnet.SConn) { c.busy, c.closed = false, vsched.Steps() }
	vsched.Background("peer "+addr, func() { w.serve(c) })
	return a, nil
}

// readFrame reads a whole frame at the peer.
func readFrame(c *vnet.SConn) ([]byte, error) {
	var buf []byte
	for {
		if len(buf) >= 4 {
			n := int(binary.BigEndian.Uint32(buf))
			if len(buf) >= 4+n {
				return buf[4 : 4+n], nil
			}
		}
		var b [4096]byte
		n, err := c.Read(b[:])
		if err != nil {
			return nil, err
		}
		buf = append(buf, b[:n]...)
	}
}

// serve behaves as planned: o(k), x reply then close, c(lose unanswered), l(ate),
// n(ever), h(alf a reply then close), g(arbage), i (closes while idle, before any request).
func (w *world) serve(c *conn) {
	for k := 0; ; k++ {
		b := byte('o')
		if k < len(c.plan) {
			b = c.plan[k]
		}
		if b == 'i' {
			c.bad = true
			c.end.Close()
			return
		}
		f, err := readFrame(c.end)
		if err != nil {
			return // the node closed
		}
		m, err := fcrmessages.FCRMsgFromBytes(f)
		if err != nil {
			w.fail("peer %s received something undecodable", c.peer.name)
			return
		}
		c.reqs++
		body := bodyOf(m)
		reply := frameOf(msg(tReq, "re "+body))
		if b != 'o' {
			c.bad = true
		}
		switch b {
		case 'o':
			c.end.Write(reply)
		case 'x':
			c.end.Write(reply)
			c.end.Close()
			return
		case 'c':
			c.end.Close()
			return
		case 'l':
			vsched.Sleep(timeout + timeout/2)
			c.end.Write(reply)
		case 'n':
		case 'h':
			c.end.Write(reply[:len(reply)/2])
			c.end.Close()
			return
		case 'g':
			g := append([]byte{}, reply...)
			for i := 4; i < len(g); i++ {
				g[i] = '}'
			}
			c.end.Write(g)
		}
	}
}

// excused tells whether a failed request may have failed.
func (w *world) excused(p *peer, r *result) bool {
	for i, pl := range p.plans {
		if i < p.dials && strings.HasPrefix(pl, "R") {
			return true
		}
	}
	for _, c := range p.conns[:p.n] {
		if !c.bad || c.opened >= r.end {
			continue
		}
		retired := 1 << 30 // when the request that ended it returned
		if c.node.Closed() {
			retired = c.closed
			for _, u := range w.res[:w.nRes] {
				if u.to == r.to && u.done && u.err != nil && u.start <= c.closed && u.end >= c.closed && u.end > retired {
					retired = u.end
				}
			}
		}
		if retired >= r.start {
			return true
		}
	}
	return false
}

// op is one request.
type op struct {
	api  byte // g, h (from provider), p
	node int
}

func (o op) addr() string {
	if o.api == 'p' {
		return fmt.Sprintf("p%d", o.node)
	}
	return fmt.Sprintf("g%d", o.node)
}

type scenario struct {
	name    string
	plans   map[string][]string
	threads []string // "g0 p1": requests in turn
	delay   bool
	bound   [2]int
}

func parse(s string) (l []op) {
	for _, f := range strings.Fields(s) {
		l = append(l, op{f[0], int(f[1] - '0')})
	}
	return
}

func request(s *fcrp2pserver.FCRP2PServer, o op, typ int32, body string) (*fcrmessages.FCRMessage, error) {
	switch o.api {
	case 'g':
		return s.RequestGatewayFromGateway(nodes[o.node], typ, body)
	case 'h':
		return s.RequestGatewayFromProvider(nodes[o.node], typ, body)
	}
	return s.RequestProvider(nodes[o.node], typ, body)
}

func requester(r *fcrp2pserver.FCRServerReader, w *fcrp2pserver.FCRServerWriter, args ...interface{}) (*fcrmessages.FCRMessage, error) {
	typ := int32(tReq)
	if len(args) > 1 {
		typ = args[1].(int32)
	}
	if err := w.Write(msg(typ, args[0].(string)), timeout); err != nil {
		return nil, err
	}
	return r.Read(timeout)
}

func run(t *vh.T, mgr *fcrregistermgr.FCRRegisterMgr, sc scenario) {
	cfg := vsched.Config{Name: sc.name, MaxPreempt: t.Pick(sc.bound[0], sc.bound[1]), MaxSteps: 1200, TimerFires: 60}
	cfg.Delay, cfg.Shard, cfg.Shards = sc.delay, t.Shard, t.Shards
	t.Explore(cfg, func(x *vsched.X) {
		w := &world{x: x, peers: map[string]*peer{}}
		for i := 0; i < 3; i++ {
			for _, k := range []string{"g", "p"} {
				n := fmt.Sprintf("%s%d", k, i)
				w.peers[n] = &peer{name: n, plans: sc.plans[n]}
			}
		}
		vnet.DialHook = w.dial
		vnet.ListenHook = func(addr string) (net.Listener, error) { return &vnet.SListener{Addr_: addr}, nil }
		s := fcrp2pserver.NewFCRP2PServer([]string{"7001"}, mgr, timeout)
		s.AddRequester(tReq, requester)
		if err := s.Start(); err != nil {
			x.Fail("start", "the server does not start: %v", err)
			return
		}
		do := func(r *result, o op) {
			r.start, r.t0 = vsched.Steps(), vsched.Now()
			m, err := request(s, o, tReq, r.body)
			r.end, r.t1 = vsched.Steps(), vsched.Now()
			r.err, r.done = err, true
			if err == nil && m != nil {
				r.got = bodyOf(m)
			}
		}
		add := func(by string, k int, o op) *result {
			r := &result{by: by, to: o.addr(), body: fmt.Sprintf("%s%d", by, k)}
			w.res[w.nRes] = r
			w.nRes++
			return r
		}
		for i, th := range sc.threads {
			ops := parse(th)
			var rs []*result
			for k, o := range ops {
				rs = append(rs, add(fmt.Sprintf("t%d.", i), k, o))
			}
			x.Go(fmt.Sprintf("t%d", i), func() {
				for k, o := range ops {
					do(rs[k], o)
				}
			})
		}
		x.Join()
		// afterwards: a connection that failed has been given up, so peers answer again
		used := map[string]op{}
		for _, th := range sc.threads {
			for _, o := range parse(th) {
				used[o.addr()] = o
			}
		}
		for _, a := range []string{"g0", "g1", "g2", "p0", "p1", "p2"} {
			if o, ok := used[a]; ok {
				for k := 0; k < 2; k++ {
					do(add("after-"+a+".", k, o), o)
				}
			}
		}
		if w.bad != "" {
			x.Fail("exclusive", "%s", w.bad)
		}
		var out []string
		for _, r := range w.res[:w.nRes] {
			p := w.peers[r.to]
			switch {
			case r.err == nil && r.got != "re "+r.body:
				x.Fail("pairing", "request %s to %s got the answer %q", r.body, r.to, r.got)
			case r.err != nil && r.node() < 3 && !w.excused(p, r):
				x.Fail("spurious-error", "request %s to %s failed though the peer answers on every connection it could have used: %v", r.body, r.to, r.err)
			}
			if len(sc.plans[r.to]) == 0 && r.err == nil && !r.t1.Equal(r.t0) {
				x.Fail("waits-for-another", "request %s to %s took %v though that peer answers at once", r.body, r.to, r.t1.Sub(r.t0))
			}
			if r.err == nil {
				out = append(out, r.body)
			} else {
				out = append(out, r.body+"!")
			}
		}
		for _, a := range []string{"g0", "g1", "g2", "p0", "p1", "p2"} {
			p := w.peers[a]
			open := 0
			for _, c := range p.conns[:p.n] {
				if !c.node.Closed() {
					open++
				}
			}
			if open > 1 {
				x.Fail("pool", "%d connections to %s are left open", open, a)
			}
			if p.dials > 0 {
				out = append(out, fmt.Sprintf("%s:%d", a, p.dials))
			}
		}
		x.Outcome(strings.Join(out, " "))
	})
}

func (r *result) node() int { return int(r.to[1] - '0') }

// ---------------------------------------------------------------- two real servers

type twoNodes struct {
	name  string
	a, b  []string // threads of each node; n: nested request to the other, q: plain, u: unhandled type
	delay bool
	bound [2]int
}

func runTwo(t *vh.T, mgr *fcrregistermgr.FCRRegisterMgr, sc twoNodes) {
	cfg := vsched.Config{Name: sc.name, MaxPreempt: t.Pick(sc.bound[0], sc.bound[1]), MaxSteps: 2500, TimerFires: 60}
	cfg.Delay, cfg.Shard, cfg.Shards = sc.delay, t.Shard, t.Shards
	t.Explore(cfg, func(x *vsched.X) {
		var lns [2]*vnet.SListener
		var servers [2]*fcrp2pserver.FCRP2PServer
		pipes := 0
		vnet.ListenHook = func(addr string) (net.Listener, error) {
			i := 0
			if strings.HasSuffix(addr, "7002") {
				i = 1
			}
			lns[i] = &vnet.SListener{Addr_: addr}
			return lns[i], nil
		}
		vnet.DialHook = func(addr string) (net.Conn, error) {
			vsched.Point("dial " + addr)
			i := int(addr[1] - '0')
			p, q := vnet.SPipe(fmt.Sprintf("%s/%d", addr, pipes))
			pipes++
			if err := lns[i].Deliver(q); err != nil {
				return nil, err
			}
			return p, nil
		}
		handled := [2]int{}
		for i, port := range []string{"7001", "7002"} {
			i, other := i, 1-i
			s := fcrp2pserver.NewFCRP2PServer([]string{port}, mgr, timeout)
			s.AddRequester(tReq, requester)
			s.AddRequester(tNested, func(r *fcrp2pserver.FCRServerReader, w *fcrp2pserver.FCRServerWriter, args ...interface{}) (*fcrmessages.FCRMessage, error) {
				return requester(r, w, args[0], int32(tNested))
			})
			s.AddRequester(tUnused, func(r *fcrp2pserver.FCRServerReader, w *fcrp2pserver.FCRServerWriter, args ...interface{}) (*fcrmessages.FCRMessage, error) {
				return requester(r, w, args[0], int32(tUnused))
			})
			s.AddHandler(port, tReq, func(r *fcrp2pserver.FCRServerReader, w *fcrp2pserver.FCRServerWriter, m *fcrmessages.FCRMessage) error {
				handled[i]++
				return w.Write(msg(tReq, fmt.Sprintf("%d re %s", i, bodyOf(m))), timeout)
			})
			s.AddHandler(port, tNested, func(r *fcrp2pserver.FCRServerReader, w *fcrp2pserver.FCRServerWriter, m *fcrmessages.FCRMessage) error {
				handled[i]++
				in, err := servers[i].RequestProvider(nodes[other], tReq, "in "+bodyOf(m))
				if err != nil {
					return err
				}
				return w.Write(msg(tReq, fmt.Sprintf("%d re %s (%s)", i, bodyOf(m), bodyOf(in))), timeout)
			})
			servers[i] = s
			if err := s.Start(); err != nil {
				x.Fail("start", "the server does not start: %v", err)
				return
			}
		}
		var got, want [12]string
		n := 0
		for i, ths := range [][]string{sc.a, sc.b} {
			for j, th := range ths {
				i, other, th, base := i, 1-i, th, n
				j := j
				n += len(th)
				for k := 0; k < len(th); k++ {
					body := fmt.Sprintf("%d.%d.%d", i, j, k)
					switch th[k] {
					case 'q':
						want[base+k] = fmt.Sprintf("%d re %s", other, body)
					case 'n':
						want[base+k] = fmt.Sprintf("%d re %s (%d re in %s)", other, body, i, body)
					case 'u':
						want[base+k] = "invalid message"
					}
				}
				x.Go(fmt.Sprintf("node%d.%d", i, j), func() {
					for k := 0; k < len(th); k++ {
						body := fmt.Sprintf("%d.%d.%d", i, j, k)
						typ := int32(tReq)
						switch th[k] {
						case 'n':
							typ = tNested
						case 'u':
							typ = tUnused
						}
						m, err := servers[i].RequestGatewayFromGateway(nodes[other], typ, body)
						switch {
						case err != nil:
							got[base+k] = "error " + err.Error()
						case m.GetMessageType() == fcrmessages.InvalidMessageResponseType:
							got[base+k] = "invalid message"
						default:
							got[base+k] = bodyOf(m)
						}
					}
				})
			}
		}
		x.Join()
		for k := 0; k < n; k++ {
			if got[k] != want[k] {
				x.Fail("pairing", "a request expected %q and got %q", want[k], got[k])
			}
		}
		x.Outcome(fmt.Sprint(handled, pipes))
	})
}

func main() {
	vh.Main(func(t *vh.T) {
		logging.SetLogLevel("fatal")
		mgr := manager()
		p := func(kv ...string) map[string][]string {
			m := map[string][]string{}
			for i := 0; i+1 < len(kv); i += 2 {
				m[kv[i]] = append(m[kv[i]], kv[i+1])
			}
			return m
		}
		for _, sc := range []scenario{
			{"same-peer", nil, []string{"g0 g0", "g0"}, true, [2]int{3, 5}},
			{"same-peer-3", nil, []string{"g0", "g0", "g0"}, true, [2]int{3, 5}},
			{"same-provider-3", nil, []string{"p0", "p0 p0", "p0"}, true, [2]int{2, 5}},
			{"both-roles", nil, []string{"g0 h0", "h0 g0"}, true, [2]int{3, 4}},
			{"gateway-and-provider", nil, []string{"g0 p0", "p0 g0"}, true, [2]int{2, 4}},
			{"two-peers", nil, []string{"g0 g1", "g1 g0"}, true, [2]int{3, 4}},
			{"two-providers", nil, []string{"p0 p1", "p1 p0"}, true, [2]int{2, 4}},
			{"hangs-up", p("g0", "c"), []string{"g0 g0", "g0"}, true, [2]int{3, 5}},
			{"hangs-up-3", p("g0", "oc"), []string{"g0 g0", "g0", "g0"}, true, [2]int{2, 4}},
			{"provider-hangs-up", p("p0", "c"), []string{"p0 p0", "p0"}, true, [2]int{3, 5}},
			{"hangs-up-after-reply", p("g0", "x"), []string{"g0 g0", "g0"}, true, [2]int{3, 5}},
			{"hangs-up-idle", p("g0", "oi", "p0", "i"), []string{"g0 g0", "g0 p0"}, true, [2]int{3, 4}},
			{"half-reply", p("g0", "h", "g0", "oh"), []string{"g0 g0", "g0 g0"}, true, [2]int{3, 4}},
			{"garbage", p("p0", "g", "p0", "og"), []string{"p0 p0", "p0 p0"}, true, [2]int{2, 4}},
			{"late", p("g0", "l"), []string{"g0 g0", "g0"}, true, [2]int{3, 4}},
			{"late-provider", p("p0", "ol"), []string{"p0 p0", "p0 p0"}, true, [2]int{3, 4}},
			{"late-other-unaffected", p("g0", "l"), []string{"g0 g0", "g1 g1"}, true, [2]int{3, 4}},
			{"never", p("g0", "n", "g0", "n"), []string{"g0 g0", "g0 p0"}, true, [2]int{2, 4}},
			{"never-others-unaffected", p("p0", "n"), []string{"p0 p0", "p1 g0", "g1"}, true, [2]int{2, 4}},
			{"refused", p("g0", "R", "g0", "", "g0", "R"), []string{"g0 g0", "g0 p0"}, true, [2]int{3, 4}},
			{"slow-dial", p("g0", "S"), []string{"g0 g0", "g1 g0", "p0"}, true, [2]int{2, 4}},
			{"slow-dial-provider", p("p0", "S", "p0", "c"), []string{"p0", "p1 p0", "p0"}, true, [2]int{2, 4}},
			{"slow-dial-twice", p("g0", "S", "g0", "Sc"), []string{"g0 g0", "g0"}, true, [2]int{3, 4}},
			{"all-fail", p("g0", "c", "g0", "l", "g0", "g", "g0", "h"), []string{"g0 g0", "g0 g0"}, true, [2]int{2, 4}},
			{"unknown-peer", nil, []string{"g3 g0", "g0 p3"}, true, [2]int{2, 4}},
		} {
			run(t, mgr, sc)
		}
		for _, sc := range []twoNodes{
			{"nodes-both-ways", []string{"q"}, []string{"q"}, true, [2]int{2, 4}},
			{"nodes-one-way-2", []string{"qq", "q"}, nil, true, [2]int{2, 4}},
			{"nodes-nested", []string{"n", "q"}, nil, true, [2]int{2, 4}},
			{"nodes-nested-both", []string{"n"}, []string{"n"}, true, [2]int{2, 4}},
			{"nodes-unhandled", []string{"uq", "qu"}, []string{"q"}, true, [2]int{2, 4}},
			{"nodes-nested-unhandled", []string{"nu"}, []string{"qn"}, true, [2]int{2, 4}},
		} {
			runTwo(t, mgr, sc)
		}
		t.Assume("scheduling points are the server's synchronisation operations, goroutine starts and every dial, accept, read, write and close; schedules with more preemptions (or departures from the default schedule) than stated are not explored")
	})
}
