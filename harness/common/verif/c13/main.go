//go:build go1.21

// C13: a node's view of the register, over every history of register
// contents, refreshes, look-ups and restarts up to a depth, on the real
// register manager talking HTTP to a register that serves chosen answers.
package main

import (
	"encoding/json"
	"fmt"
	"io/ioutil"
	"math/big"
	"net"
	"net/http"
	"sort"
	"strings"
	"sync"
	"time"

	"github.com/ConsenSys/fc-retrieval/common/pkg/cid"
	"github.com/ConsenSys/fc-retrieval/common/pkg/fcrregistermgr"
	"github.com/ConsenSys/fc-retrieval/common/pkg/logging"
	"github.com/ConsenSys/fc-retrieval/common/pkg/nodeid"
	"github.com/ConsenSys/fc-retrieval/common/pkg/register"
	"github.com/ConsenSys/fc-retrieval/common/verif/vh"
)

// identifiers spread unevenly round the ring; the last is never registered
var nums = []string{"01", "05", "80", "f0", "33", "a7"}

const stranger = 5

func hexID(i int) string { return nums[i] + strings.Repeat("0", 60) + fmt.Sprintf("%02x", i) }

func node(i int) *nodeid.NodeID {
	n, err := nodeid.NewNodeIDFromHexString(hexID(i))
	if err != nil {
		panic(err)
	}
	return n
}

func content(s string) *cid.ContentID {
	n, err := cid.NewContentIDFromHexString(s)
	if err != nil {
		panic(err)
	}
	return n
}

// contents of the register: member -> generation of its record.
type contents map[int]int

func gwRec(i, d int) register.GatewayRegister {
	s := func(f string) string { return fmt.Sprintf("%s-%d-%d", f, i, d) }
	return register.GatewayRegister{NodeID: hexID(i), Address: s("addr"), RootSigningKey: s("root"), SigningKey: s("key"), RegionCode: s("region"),
		NetworkInfoGateway: s("gw"), NetworkInfoProvider: s("prov"), NetworkInfoClient: s("client"), NetworkInfoAdmin: s("admin")}
}

func pvRec(i, d int) register.ProviderRegister {
	s := func(f string) string { return fmt.Sprintf("%s-%d-%d", f, i, d) }
	return register.ProviderRegister{NodeID: hexID(i), Address: s("paddr"), RootSigningKey: s("root"), SigningKey: s("key"), RegionCode: s("region"),
		NetworkInfoGateway: s("gw"), NetworkInfoClient: s("client"), NetworkInfoAdmin: s("admin")}
}

func (c contents) json(gateways bool, extra ...string) string {
	var l []string
	for i := range nums {
		if d, ok := c[i]; ok {
			var b []byte
			if gateways {
				b, _ = json.Marshal(gwRec(i, d))
			} else {
				b, _ = json.Marshal(pvRec(i, d))
			}
			l = append(l, string(b))
		}
	}
	return "[" + strings.Join(append(l, extra...), ",") + "]"
}

// answer is one way the register answers a pull.
type answer struct {
	name   string
	c      contents // what it holds; nil: it conveys nothing
	extra  []string // junk entries after the records
	loose  bool     // need not be understood
	raw    string   // body when c is nil
	status int
	drop   bool // connection closed without an answer
}

func (a answer) body(gateways bool) string {
	if a.c == nil {
		return a.raw
	}
	return a.c.json(gateways, a.extra...)
}

// registerSrv is a stand-in for the register.
type registerSrv struct {
	mu     sync.Mutex
	cur    answer
	posts  []string
	status int
	url    string
	pulls  int
}

func (r *registerSrv) set(a answer) { r.mu.Lock(); r.cur = a; r.mu.Unlock() }

func (r *registerSrv) ServeHTTP(w http.ResponseWriter, q *http.Request) {
	r.mu.Lock()
	defer r.mu.Unlock()
	if q.Method == "POST" {
		b, _ := ioutil.ReadAll(q.Body)
		r.posts = append(r.posts, q.URL.Path+" "+string(b))
		w.WriteHeader(r.status)
		fmt.Fprint(w, "{}")
		return
	}
	r.pulls++
	if r.cur.drop {
		c, _, err := w.(http.Hijacker).Hijack()
		if err == nil {
			c.Close()
		}
		return
	}
	w.Header().Set("Content-Type", "application/json")
	if r.cur.status != 0 {
		w.WriteHeader(r.cur.status)
	}
	if strings.HasPrefix(q.URL.Path, "/registers/gateway") {
		fmt.Fprint(w, r.cur.body(true))
	} else {
		fmt.Fprint(w, r.cur.body(false))
	}
}

func serve() *registerSrv {
	r := &registerSrv{status: 200}
	l, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		panic(err)
	}
	r.url = "http://" + l.Addr().String()
	go http.Serve(l, r)
	return r
}

// view is what one kind of node may be seen as: for each member the least and
// greatest generation allowed; must: it may not be absent.
type span struct {
	lo, hi int
	must   bool
}
type view map[int]span

// pulled folds a completed pull in; sure: the manager has certainly done it.
func (v view) pulled(a answer, sure bool) {
	if a.c == nil {
		return
	}
	for i := range nums {
		d, served := a.c[i]
		s, was := v[i]
		switch {
		case served && sure && !a.loose:
			v[i] = span{d, d, true}
		case served && was:
			if d > s.hi {
				s.hi = d
			}
			if d < s.lo {
				s.lo = d
			}
			v[i] = s
		case served:
			v[i] = span{d, d, false}
		case was:
			s.must = false // no longer registered: either is right
			v[i] = s
		}
	}
}

type machine struct {
	t       *vh.T
	srv     *registerSrv
	m       *fcrregistermgr.FCRRegisterMgr
	gd, pd  bool
	running bool
	cur     answer
	gw, pv  view
	hist    []string
}

const stuck = 20 * time.Second

func (s *machine) guard(what string, f func()) bool {
	done := make(chan string, 1)
	go func() {
		defer func() {
			if r := recover(); r != nil {
				done <- fmt.Sprint("panic: ", r)
				return
			}
			done <- ""
		}()
		f()
	}()
	select {
	case p := <-done:
		if p != "" {
			s.fail("crash", what+": "+p)
			return false
		}
		return true
	case <-time.After(stuck):
		s.fail("hang", what+" did not return")
		return false
	}
}

func (s *machine) fail(key, det string) {
	s.t.Violate(key, fmt.Sprintf("discovery gateways=%v providers=%v, history %s: %s", s.gd, s.pd, strings.Join(s.hist, "; "), det), s.hist)
}

// pull: the register may have been pulled now.
func (s *machine) pull(sure bool) {
	if !s.running {
		return
	}
	if s.gd {
		s.gw.pulled(s.cur, sure)
	}
	if s.pd {
		s.pv.pulled(s.cur, sure)
	}
}

func (s *machine) seen(kind string, v view, i int, got string, present bool) bool {
	w, ok := v[i]
	if !present {
		if ok && w.must {
			s.fail(kind+" missing", fmt.Sprintf("%s is registered with generation %d..%d and not found", nums[i], w.lo, w.hi))
			return false
		}
		return true
	}
	if ok {
		for d := w.lo; d <= w.hi; d++ {
			var want interface{} = gwRec(i, d)
			if kind == "provider" {
				want = pvRec(i, d)
			}
			if b, _ := json.Marshal(want); string(b) == got {
				return true
			}
		}
	}
	s.fail(kind+" wrong", fmt.Sprintf("%s seen as %s; allowed %+v", nums[i], got, w))
	return false
}

func (s *machine) lookGW(i int) bool {
	var got string
	var present bool
	if !s.guard("GetGateway", func() {
		if g := s.m.GetGateway(node(i)); g != nil {
			b, _ := json.Marshal(g.Serialize())
			got, present = string(b), true
		}
	}) {
		return false
	}
	if _, known := s.gw[i]; !known || !s.gw[i].must {
		s.pull(false)
	}
	return s.seen("gateway", s.gw, i, got, present)
}

func (s *machine) lookPV(i int) bool {
	var got string
	var present bool
	if !s.guard("GetProvider", func() {
		if g := s.m.GetProvider(node(i)); g != nil {
			b, _ := json.Marshal(g.Serialize())
			got, present = string(b), true
		}
	}) {
		return false
	}
	if _, known := s.pv[i]; !known || !s.pv[i].must {
		s.pull(false)
	}
	return s.seen("provider", s.pv, i, got, present)
}

func index(id string) int {
	for i := range nums {
		if hexID(i) == id {
			return i
		}
	}
	return -1
}

func (s *machine) lookAll() bool {
	got := map[int]string{}
	pgot := map[int]string{}
	twice := ""
	if !s.guard("GetAll*", func() {
		for _, g := range s.m.GetAllGateways() {
			if i := index(g.GetNodeID()); i >= 0 {
				if got[i] != "" {
					twice = g.GetNodeID()
				}
				b, _ := json.Marshal(g.Serialize())
				got[i] = string(b)
			}
		}
		for _, g := range s.m.GetAllProviders() {
			if i := index(g.GetNodeID()); i >= 0 {
				if pgot[i] != "" {
					twice = g.GetNodeID()
				}
				b, _ := json.Marshal(g.Serialize())
				pgot[i] = string(b)
			}
		}
	}) {
		return false
	}
	if twice != "" {
		s.fail("listed twice", twice)
		return false
	}
	for i := range nums {
		if !s.seen("gateway", s.gw, i, got[i], got[i] != "") || !s.seen("provider", s.pv, i, pgot[i], pgot[i] != "") {
			return false
		}
	}
	return true
}

var size = new(big.Int).Lsh(big.NewInt(1), 256)

// nearest: the set of the k members nearest the CID, ties counter-clockwise.
func nearest(set []int, target *big.Int, k, ex int) string {
	type m struct {
		i   int
		d   *big.Int
		ccw bool
	}
	var l []m
	for _, i := range set {
		if i == ex {
			continue
		}
		v, _ := new(big.Int).SetString(hexID(i), 16)
		cw := new(big.Int).Mod(new(big.Int).Sub(v, target), size)
		cc := new(big.Int).Mod(new(big.Int).Sub(target, v), size)
		if cc.Cmp(cw) <= 0 {
			l = append(l, m{i, cc, true})
		} else {
			l = append(l, m{i, cw, false})
		}
	}
	sort.Slice(l, func(a, b int) bool {
		if x := l[a].d.Cmp(l[b].d); x != 0 {
			return x < 0
		}
		return l[a].ccw && !l[b].ccw
	})
	if k < 0 {
		k = 0
	}
	if k > 16 {
		k = 16
	}
	if len(l) > k {
		l = l[:k]
	}
	var s []string
	for _, x := range l {
		s = append(s, nums[x.i])
	}
	sort.Strings(s)
	return strings.Join(s, " ")
}

func (s *machine) near(target string, k, ex int) bool {
	var got []string
	var err error
	if !s.guard("GetGatewaysNearCID", func() {
		var e *nodeid.NodeID
		if ex >= 0 {
			e = node(ex)
		}
		var l []register.GatewayRegistrar
		l, err = s.m.GetGatewaysNearCID(content(target), k, e)
		for _, g := range l {
			if i := index(g.GetNodeID()); i >= 0 {
				got = append(got, nums[i])
			} else {
				got = append(got, g.GetNodeID())
			}
		}
	}) {
		return false
	}
	if !s.gd || !s.running {
		if len(got) > 0 {
			s.fail("near wrong", fmt.Sprint("gateways reported without discovery: ", got))
			return false
		}
		return true
	}
	if err != nil {
		s.fail("near error", fmt.Sprintf("near %s, %d: %v", target[:2], k, err))
		return false
	}
	sort.Strings(got)
	var must, may []int
	for i := range nums {
		if w, ok := s.gw[i]; ok && w.must {
			must = append(must, i)
		} else if ok {
			may = append(may, i)
		}
	}
	tv, _ := new(big.Int).SetString(target, 16)
	for m := 0; m < 1<<uint(len(may)); m++ {
		set := append([]int{}, must...)
		for j, i := range may {
			if m>>uint(j)&1 == 1 {
				set = append(set, i)
			}
		}
		if nearest(set, tv, k, ex) == strings.Join(got, " ") {
			return true
		}
	}
	s.fail("near wrong", fmt.Sprintf("near %s, %d, without %d: got %v with gateways %v", target[:2], k, ex, got, s.gw))
	return false
}

func (s *machine) ranges(i int) bool {
	var a, b *cid.ContentID
	var err error
	if !s.guard("GetGatewayCIDRange", func() { a, b, err = s.m.GetGatewayCIDRange(node(i)) }) {
		return false
	}
	if !s.gd || !s.running {
		if err == nil {
			s.fail("range wrong", "a range without discovery")
			return false
		}
		return true
	}
	n := 0
	for j, w := range s.gw {
		if !w.must {
			return true // C14 judges these
		}
		if j != i {
			n++
		}
	}
	if n < 2 {
		if err == nil {
			s.fail("range wrong", "a range with fewer than two others")
			return false
		}
		return true
	}
	if err != nil {
		s.fail("range error", err.Error())
		return false
	}
	// the range spans the others, which are its sixteen nearest: from one to its predecessor
	var l []string
	for j := range nums {
		if _, ok := s.gw[j]; ok && j != i {
			l = append(l, hexID(j))
		}
	}
	sort.Strings(l)
	for j := range l {
		if a.ToString() == l[(j+1)%len(l)] && b.ToString() == l[j] {
			return true
		}
	}
	s.fail("range wrong", fmt.Sprintf("gateway %s: %s to %s with gateways %v", nums[i], a.ToString(), b.ToString(), s.gw))
	return false
}

type op struct {
	name string
	do   func(s *machine) bool
}

func ops(answers []answer) []op {
	l := []op{
		{"refresh", func(s *machine) bool {
			if !s.guard("Refresh", func() { s.m.Refresh() }) {
				return false
			}
			s.pull(true)
			return true
		}},
		{"get unknown gateway", func(s *machine) bool { return s.lookGW(stranger) }},
		{"get unknown provider", func(s *machine) bool { return s.lookPV(stranger) }},
		{"get gateway 3", func(s *machine) bool { return s.lookGW(3) }},
		{"get provider 1", func(s *machine) bool { return s.lookPV(1) }},
		{"near", func(s *machine) bool {
			return s.near(hexID(4), 2, -1) && s.near(hexID(0), 3, 0) && s.near(hexID(stranger), 16, -1)
		}},
		{"range", func(s *machine) bool { return s.ranges(0) && s.ranges(stranger) }},
		{"restart", func(s *machine) bool {
			if !s.guard("ShutdownAndWait", func() { s.m.ShutdownAndWait() }) {
				return false
			}
			s.running = false
			s.gw, s.pv = view{}, view{}
			if !s.lookAll() || !s.near(hexID(4), 2, -1) || !s.guard("Refresh", func() { s.m.Refresh() }) {
				return false
			}
			return start(s)
		}},
	}
	for _, a := range answers {
		a := a
		l = append(l, op{"register: " + a.name, func(s *machine) bool {
			s.cur = a
			s.srv.set(a)
			return true
		}})
	}
	return l
}

func start(s *machine) bool {
	var err error
	if !s.guard("Start", func() { err = s.m.Start() }) {
		return false
	}
	if err != nil {
		s.fail("start", err.Error())
		return false
	}
	s.running = true
	// the first pull is under way; a refresh settles it
	if !s.guard("Refresh", func() { s.m.Refresh() }) {
		return false
	}
	s.pull(true)
	return true
}

func history(t *vh.T, srv *registerSrv, gd, pd bool, first answer, l []op, idx []int) bool {
	s := &machine{t: t, srv: srv, gd: gd, pd: pd, gw: view{}, pv: view{}, cur: first}
	s.hist = []string{"register: " + first.name, "start"}
	t.Case(func() string { return strings.Join(s.hist, "; ") })
	srv.set(first)
	s.m = fcrregistermgr.NewFCRRegisterMgr(srv.url, pd, gd, time.Hour)
	if !start(s) {
		return false
	}
	for _, i := range idx {
		s.hist = append(s.hist, l[i].name)
		t.Transition()
		if !l[i].do(s) {
			return false
		}
	}
	s.hist = append(s.hist, "every look-up")
	if !s.lookAll() {
		return false
	}
	for i := range nums {
		if i == stranger {
			continue
		}
		if w, ok := s.gw[i]; ok && w.must || !gd {
			if !s.lookGW(i) {
				return false
			}
		}
		if !s.lookPV(i) {
			return false
		}
	}
	for _, x := range []string{hexID(1), hexID(3), strings.Repeat("0", 64), strings.Repeat("f", 64)} {
		for _, k := range []int{1, 3, 16} {
			if !s.near(x, k, -1) || !s.near(x, k, 1) {
				return false
			}
		}
	}
	if gd {
		if !s.ranges(2) || !s.lookGW(stranger) {
			return false
		}
	}
	if !s.guard("ShutdownAndWait", func() { s.m.ShutdownAndWait() }) {
		return false
	}
	s.running = false
	s.gw, s.pv = view{}, view{}
	if !s.lookAll() || !s.lookGW(0) || !s.near(hexID(1), 3, -1) {
		return false
	}
	t.Eval()
	t.Trace()
	t.State(fmt.Sprint(gd, pd, first.name, idx))
	return true
}

func main() {
	vh.Main(func(t *vh.T) {
		logging.SetLogLevel("fatal")
		srv := serve()
		a := answer{name: "two", c: contents{0: 1, 2: 1}}
		b := answer{name: "changed and new", c: contents{0: 2, 2: 1, 1: 1, 3: 1}}
		answers := []answer{
			a, b,
			{name: "all changed, with empty and foreign entries", c: contents{0: 3, 1: 2, 2: 2, 3: 1, 4: 1}, extra: []string{"null", `{"nodeId":"zz"}`, `{}`}},
			{name: "an entry of the wrong type", c: contents{0: 4, 4: 2}, extra: []string{`"x"`}, loose: true},
			{name: "empty list", c: contents{}},
			{name: "not found", raw: `{"code":404}`, status: 404},
			{name: "cut short", raw: `[{"nodeId":"01`},
			{name: "null", raw: "null"},
			{name: "no answer", drop: true},
		}
		l := ops(answers)
		depth := t.Pick(4, 5)
		n := 0
		for _, d := range [][2]bool{{true, true}, {true, false}, {false, true}, {false, false}} {
			for _, first := range []answer{a, answers[5]} {
				var rec func(idx []int)
				rec = func(idx []int) {
					if t.Over() {
						t.NotExhaustive("time")
						return
					}
					if len(idx) == depth || len(idx) == 2 && !d[0] && !d[1] {
						n++
						if t.Mine(n) {
							history(t, srv, d[0], d[1], first, l, idx)
						}
						return
					}
					for i := range l {
						// two settings of the contents in a row: the first has no effect
						if len(idx) > 0 && strings.HasPrefix(l[i].name, "register") && strings.HasPrefix(l[idx[len(idx)-1]].name, "register") {
							continue
						}
						rec(append(append([]int{}, idx...), i))
					}
				}
				rec(nil)
			}
		}
		// every set of gateways, every query
		ks := []int{0, 1, 2, 3, 5, 16, 20}
		for m := 0; m < 1<<5; m++ {
			if !t.Mine(m) {
				continue
			}
			c := contents{}
			for i := 0; i < 5; i++ {
				if m>>uint(i)&1 == 1 {
					c[i] = 1
				}
			}
			ans := answer{name: fmt.Sprint("gateways ", m), c: c}
			srv.set(ans)
			s := &machine{t: t, srv: srv, gd: true, gw: view{}, pv: view{}, cur: ans, hist: []string{ans.name}}
			s.m = fcrregistermgr.NewFCRRegisterMgr(srv.url, false, true, time.Hour)
			if !start(s) {
				continue
			}
			bad := false
			for i := 0; i < len(nums) && !bad; i++ {
				for _, k := range ks {
					for ex := -1; ex < len(nums) && !bad; ex++ {
						bad = !s.near(hexID(i), k, ex)
						t.Eval()
					}
				}
				bad = bad || !s.ranges(i) || !s.lookGW(i)
			}
			s.guard("ShutdownAndWait", func() { s.m.ShutdownAndWait() })
		}
		if t.Shard == 0 {
			registering(t, srv)
			many(t, srv)
			fields(t, srv)
		}
		t.Assume("the first pull after a start is settled by a forced refresh before anything is judged; the schedules before that are C14's")
	})
}

// registering: a node is told that it is registered only when the register took the record.
func registering(t *vh.T, srv *registerSrv) {
	m := fcrregistermgr.NewFCRRegisterMgr(srv.url, true, true, time.Hour)
	for _, st := range []int{200, 400, 404, 500, 503} {
		srv.mu.Lock()
		srv.status, srv.posts = st, nil
		srv.mu.Unlock()
		for kind := 0; kind < 2; kind++ {
			var err error
			var want []byte
			path := "/registers/gateway "
			if kind == 0 {
				r := gwRec(1, 1)
				want, _ = json.Marshal(r)
				err = m.RegisterGateway(&r)
			} else {
				r := pvRec(1, 1)
				path = "/registers/provider "
				want, _ = json.Marshal(r)
				err = m.RegisterProvider(&r)
			}
			t.Eval()
			srv.mu.Lock()
			got := srv.posts[len(srv.posts)-1]
			srv.mu.Unlock()
			if got != path+string(want) {
				t.Violate("registered wrongly", fmt.Sprintf("sent %q, want %q", got, path+string(want)), st)
			}
			if (err == nil) != (st == 200) {
				t.Violate("registration misreported", fmt.Sprintf("the register answered %d, the node was told %v", st, err), st)
			}
		}
	}
	dead := fcrregistermgr.NewFCRRegisterMgr("http://127.0.0.1:1", true, true, time.Hour)
	g, p := gwRec(1, 1), pvRec(1, 1)
	if dead.RegisterGateway(&g) == nil || dead.RegisterProvider(&p) == nil {
		t.Violate("registration misreported", "success without a register", nil)
	}
	srv.mu.Lock()
	srv.status = 200
	srv.mu.Unlock()
}

// many: more gateways than are ever reported.
func many(t *vh.T, srv *registerSrv) {
	old := nums
	defer func() { nums = old }()
	for _, n := range []int{15, 16, 17, 18, 20} {
		nums = nil
		c := contents{}
		for i := 0; i < n; i++ {
			nums = append(nums, fmt.Sprintf("%02x", (i*37+i*i*3)%256))
			c[i] = 1
		}
		ans := answer{name: fmt.Sprint(n, " gateways"), c: c}
		srv.set(ans)
		s := &machine{t: t, srv: srv, gd: true, gw: view{}, pv: view{}, cur: ans, hist: []string{ans.name}}
		s.m = fcrregistermgr.NewFCRRegisterMgr(srv.url, false, true, time.Hour)
		if !start(s) {
			continue
		}
		ok := s.lookAll()
		for i := 0; i < n && ok; i++ {
			for _, k := range []int{1, 7, 15, 16} {
				ok = ok && s.near(hexID(i), k, -1) && s.near(hexID(i), k, i) && s.near(hexID(i), k, (i+5)%n)
				t.Eval()
			}
		}
		s.guard("ShutdownAndWait", func() { s.m.ShutdownAndWait() })
	}
}

// fields: a record of which only one field changes, and changes back, and in
// which every set of fields changes.
func fields(t *vh.T, srv *registerSrv) {
	gf := []string{"address", "rootSigningKey", "signingKey", "regionCode", "networkInfoGateway", "networkInfoProvider", "networkInfoClient", "networkInfoAdmin"}
	enc := func(i, mask int, provider bool) string {
		a, b := map[string]string{}, map[string]string{}
		var x, y []byte
		if provider {
			x, _ = json.Marshal(pvRec(i, 1))
			y, _ = json.Marshal(pvRec(i, 2))
		} else {
			x, _ = json.Marshal(gwRec(i, 1))
			y, _ = json.Marshal(gwRec(i, 2))
		}
		json.Unmarshal(x, &a)
		json.Unmarshal(y, &b)
		for k, f := range gf {
			if _, ok := a[f]; ok && mask>>uint(k)&1 == 1 {
				a[f] = b[f]
			}
		}
		// as the record's own type writes it
		l, _ := json.Marshal(a)
		var out []byte
		if provider {
			var r register.ProviderRegister
			json.Unmarshal(l, &r)
			out, _ = json.Marshal(r)
		} else {
			var r register.GatewayRegister
			json.Unmarshal(l, &r)
			out, _ = json.Marshal(r)
		}
		return string(out)
	}
	for kind := 0; kind < 2; kind++ {
		provider := kind == 1
		m := fcrregistermgr.NewFCRRegisterMgr(srv.url, provider, !provider, time.Hour)
		s := &machine{t: t, srv: srv, gd: !provider, pd: provider, m: m}
		body := enc(0, 0, provider)
		other := enc(1, 0, provider)
		srv.set(answer{name: "first", raw: "[" + body + "," + other + "]"})
		if !s.guard("Start", func() { m.Start(); m.Refresh() }) {
			return
		}
		step := func(mask int) bool {
			want := enc(0, mask, provider)
			s.hist = []string{fmt.Sprintf("the fields of set %08b change, provider %v", mask, provider)}
			srv.set(answer{name: "changed", raw: "[" + want + "," + other + "]"})
			if !s.guard("Refresh", func() { m.Refresh() }) {
				return false
			}
			var got, other2 string
			all := map[string]bool{}
			if provider {
				if g := m.GetProvider(node(0)); g != nil {
					b, _ := json.Marshal(g.Serialize())
					got = string(b)
				}
				if g := m.GetProvider(node(1)); g != nil {
					b, _ := json.Marshal(g.Serialize())
					other2 = string(b)
				}
				for _, g := range m.GetAllProviders() {
					b, _ := json.Marshal(g.Serialize())
					all[string(b)] = true
				}
			} else {
				if g := m.GetGateway(node(0)); g != nil {
					b, _ := json.Marshal(g.Serialize())
					got = string(b)
				}
				if g := m.GetGateway(node(1)); g != nil {
					b, _ := json.Marshal(g.Serialize())
					other2 = string(b)
				}
				for _, g := range m.GetAllGateways() {
					b, _ := json.Marshal(g.Serialize())
					all[string(b)] = true
				}
			}
			t.Eval()
			t.Transition()
			if got != want || other2 != other || len(all) != 2 || !all[want] || !all[other] {
				s.fail("changed record", fmt.Sprintf("the register holds %s and %s; after a refresh %s, %s and the list %v are seen", want, other, got, other2, all))
				return false
			}
			return true
		}
		for mask := 1; mask < 1<<uint(len(gf)); mask++ {
			if provider && mask>>5&1 == 1 { // providers have no provider endpoint
				continue
			}
			if !step(mask) || !step(0) {
				break
			}
		}
		s.guard("ShutdownAndWait", func() { m.ShutdownAndWait() })
	}
}
