//go:build go1.21

// C14: every interleaving (to a preemption bound) of look-ups, forced
// refreshes, background updates and shutdown on one register manager.
package main

import (
	"encoding/json"
	"fmt"
	"math/big"
	"sort"
	"strings"
	"time"

	"github.com/ConsenSys/fc-retrieval/common/pkg/cid"
	"github.com/ConsenSys/fc-retrieval/common/pkg/fcrregistermgr"
	"github.com/ConsenSys/fc-retrieval/common/pkg/logging"
	"github.com/ConsenSys/fc-retrieval/common/pkg/nodeid"
	"github.com/ConsenSys/fc-retrieval/common/pkg/register"
	"github.com/ConsenSys/fc-retrieval/common/verif/vh"
	"github.com/ConsenSys/fc-retrieval/common/verif/vreq"
	"github.com/ConsenSys/fc-retrieval/common/verif/vsched"
)

// identifiers spread unevenly round the ring
var nums = []string{"01", "05", "80", "f0", "33"}

func hexID(i int) string { return nums[i] + strings.Repeat("0", 62) }

func node(i int) *nodeid.NodeID {
	n, err := nodeid.NewNodeIDFromHexString(hexID(i))
	if err != nil {
		panic(err)
	}
	return n
}

func content(i int) *cid.ContentID {
	n, err := cid.NewContentIDFromHexString(hexID(i))
	if err != nil {
		panic(err)
	}
	return n
}

// version v of the register: member i present with data generation d.
type version map[int]int

func (v version) gateways() []byte {
	l := []register.GatewayRegister{}
	for i := range nums {
		if d, ok := v[i]; ok {
			l = append(l, register.GatewayRegister{NodeID: hexID(i), Address: fmt.Sprint("a", d), NetworkInfoGateway: fmt.Sprint("g", d)})
		}
	}
	b, _ := json.Marshal(l)
	return b
}

func (v version) providers() []byte {
	l := []register.ProviderRegister{}
	for i := range nums {
		if d, ok := v[i]; ok {
			l = append(l, register.ProviderRegister{NodeID: hexID(i), Address: fmt.Sprint("a", d), NetworkInfoGateway: fmt.Sprint("g", d)})
		}
	}
	b, _ := json.Marshal(l)
	return b
}

type call struct {
	kind string
	n, k int // node; count or excluded
	ex   int // excluded node, -1 none
}

func (c call) String() string {
	switch c.kind {
	case "gw", "prov", "range":
		return fmt.Sprintf("%s %s", c.kind, nums[c.n])
	case "near":
		if c.ex >= 0 {
			return fmt.Sprintf("near %s %d but %s", nums[c.n], c.k, nums[c.ex])
		}
		return fmt.Sprintf("near %s %d", nums[c.n], c.k)
	case "serve":
		return fmt.Sprintf("serve %d", c.n)
	}
	return c.kind
}

// done is a completed call with what bounds its answer.
type done struct {
	c          call
	start, end int // logical times
	low, high  int // version known for certain at the start; served at the end
	lowGen     int
	stopped    bool // a shutdown was under way or done during the call
	got        string
}

type scenario struct {
	name     string
	versions []version
	disc     [2]bool // providers, gateways
	before   []call
	threads  [][]call
	bound    [2]int
	fires    int
	delay    bool          // many threads: bound every departure from the default schedule
	every    time.Duration // between periodic updates
}

func gen(a string) int {
	n := -1
	fmt.Sscanf(a, "a%d", &n)
	return n
}

func run(t *vh.T, sc scenario) {
	bound := t.Pick(sc.bound[0], sc.bound[1])
	gws := make([][]byte, len(sc.versions))
	prs := make([][]byte, len(sc.versions))
	for i, v := range sc.versions {
		gws[i], prs[i] = v.gateways(), v.providers()
	}
	cfg := vsched.Config{Name: sc.name, MaxPreempt: bound, MaxSteps: 1500, TimerFires: sc.fires, TimerDeviations: sc.fires > 0}
	cfg.Delay, cfg.Shard, cfg.Shards = sc.delay, t.Shard, t.Shards
	if sc.fires == 0 {
		cfg.TimerFires = 40 // timers run only when nothing else can
	} else {
		cfg.TimerFires = sc.fires + 40
	}
	every := sc.every
	t.Explore(cfg, func(x *vsched.X) {
		srv := &vreq.Register{}
		vreq.Srv = srv
		served := 0
		serve := func(v int) {
			vsched.Point("register changes")
			if v < served {
				return // the contents only grow
			}
			served = v
			srv.Gateways, srv.Providers = gws[v], prs[v]
		}
		serve(0)
		m := fcrregistermgr.NewFCRRegisterMgr("http://register", sc.disc[0], sc.disc[1], every)
		// what every completed refresh guarantees; forgotten when a shutdown begins
		known, shutting, running := -1, 0, true
		ever := false // a shutdown ever began
		epoch := 0
		do := func(c call) done {
			d := done{c: c, start: x.Steps(), low: known, stopped: shutting > 0 || !running}
			e0 := epoch
			t0 := vsched.Now()
			switch c.kind {
			case "serve":
				serve(c.n)
			case "start":
				if err := m.Start(); err != nil {
					d.got = "error"
				} else {
					d.got = "ok"
					running = true
				}
			case "shutdown", "shutdownwait":
				shutting++
				epoch++
				ever = true
				known = -1
				if c.kind == "shutdown" {
					m.Shutdown()
				} else {
					m.ShutdownAndWait()
				}
				shutting--
				running = false
				known = -1
			case "refresh":
				v := served
				m.Refresh()
				if !d.stopped && shutting == 0 && running && epoch == e0 && v > known {
					known = v
				}
			case "gw":
				if g := m.GetGateway(node(c.n)); g != nil {
					d.got = g.GetAddress()
					if g.GetNodeID() != hexID(c.n) {
						d.got = "the wrong gateway " + g.GetNodeID()
					}
				}
			case "prov":
				if g := m.GetProvider(node(c.n)); g != nil {
					d.got = g.GetAddress()
					if g.GetNodeID() != hexID(c.n) {
						d.got = "the wrong provider " + g.GetNodeID()
					}
				}
			case "allgw":
				var l []string
				for _, g := range m.GetAllGateways() {
					l = append(l, g.GetNodeID()[:2]+"="+g.GetAddress())
				}
				sort.Strings(l)
				d.got = strings.Join(l, " ")
			case "allprov":
				var l []string
				for _, g := range m.GetAllProviders() {
					l = append(l, g.GetNodeID()[:2]+"="+g.GetAddress())
				}
				sort.Strings(l)
				d.got = strings.Join(l, " ")
			case "near":
				var ex *nodeid.NodeID
				if c.ex >= 0 {
					ex = node(c.ex)
				}
				l, err := m.GetGatewaysNearCID(content(c.n), c.k, ex)
				if err != nil {
					d.got = "error: " + err.Error()
				} else {
					var s []string
					for _, g := range l {
						s = append(s, g.GetNodeID()[:2])
					}
					d.got = strings.Join(s, " ")
				}
			case "range":
				a, b, err := m.GetGatewayCIDRange(node(c.n))
				if err != nil {
					d.got = "error: " + err.Error()
				} else {
					d.got = a.ToString()[:2] + " " + b.ToString()[:2]
				}
			}
			if sc.fires == 0 && !vsched.Now().Equal(t0) {
				x.Fail("stuck until the next periodic update", "%v returned only after %v", c, vsched.Now().Sub(t0))
			}
			d.end = x.Steps()
			d.high = served
			d.stopped = d.stopped || shutting > 0 || !running || epoch != e0
			return d
		}
		if err := m.Start(); err != nil {
			x.Fail("start", "Start: %v", err)
			return
		}
		for _, c := range sc.before {
			d := do(c)
			if bad := judge(sc, d); bad != "" {
				x.Fail("wrong answer", "%v: %s", c, bad)
				return
			}
		}
		res := make([][]done, len(sc.threads))
		for i := range res {
			res[i] = make([]done, 0, len(sc.threads[i]))
		}
		for i, th := range sc.threads {
			i, th := i, th
			x.Go(fmt.Sprintf("t%d", i), func() {
				for _, c := range th {
					res[i] = append(res[i], do(c))
				}
			})
		}
		x.Join()
		var out []string
		starts := 0
		for i := range res {
			for _, d := range res[i] {
				if bad := judge(sc, d); bad != "" {
					x.Fail("wrong answer", "thread %d: %v answered %q: %s", i, d.c, d.got, bad)
					return
				}
				if d.c.kind == "start" && d.got == "ok" {
					starts++
				}
				if d.got != "" {
					out = append(out, d.c.String()+"="+d.got)
				}
			}
		}
		if !ever && starts > 0 {
			x.Fail("started twice", "Start succeeded %d more times on a running manager", starts)
			return
		}
		x.Outcome(strings.Join(out, "; "))
		// still usable: a refresh then shows what is served
		if running && !ever {
			for _, c := range []call{{kind: "refresh"}, {kind: "allgw"}, {kind: "allprov"}, {kind: "near", n: 0, k: 16, ex: -1}} {
				d := do(c)
				if bad := judge(sc, d); bad != "" {
					x.Fail("wrong answer afterwards", "%v answered %q: %s", d.c, d.got, bad)
					return
				}
			}
		}
		// and can be shut down for good
		do(call{kind: "shutdownwait"})
		x.Quiesce()
		n := srv.Pulls
		vsched.Sleep(3 * every)
		x.Quiesce()
		if srv.Pulls != n {
			x.Fail("still running", "%d pulls after shutdown", srv.Pulls-n)
		}
		if g := m.GetAllGateways(); len(g) > 0 {
			x.Fail("answers after shutdown", "%d gateways", len(g))
		}
	})
}

// judge compares an answer with every state the manager may have been in.
func judge(sc scenario, d done) string {
	var low, high version
	if d.low >= 0 && !d.stopped {
		low = sc.versions[d.low]
	}
	high = version{}
	for v := 0; v <= d.high; v++ {
		for i, g := range sc.versions[v] {
			if g > high[i] || high[i] == 0 {
				high[i] = g
			}
		}
	}
	one := func(i int, got string) string {
		lg, known := low[i]
		hg, served := high[i]
		if got == "" {
			if known {
				return fmt.Sprintf("absent although refreshed at generation %d", lg)
			}
			return ""
		}
		g := gen(got)
		if !served || g < 0 || g > hg {
			return "never served"
		}
		if known && g < lg {
			return fmt.Sprintf("older than the refreshed generation %d", lg)
		}
		return ""
	}
	all := func(got string) string {
		at := map[int]string{}
		for _, f := range strings.Fields(got) {
			for i, n := range nums {
				if strings.HasPrefix(f, n+"=") {
					if at[i] != "" {
						return "listed twice"
					}
					at[i] = f[3:]
				}
			}
		}
		for i := range nums {
			if bad := one(i, at[i]); bad != "" {
				return nums[i] + ": " + bad
			}
		}
		return ""
	}
	switch d.c.kind {
	case "gw":
		if !sc.disc[1] {
			if d.got != "" {
				return "discovery is off"
			}
			return ""
		}
		return one(d.c.n, d.got)
	case "prov":
		if !sc.disc[0] {
			if d.got != "" {
				return "discovery is off"
			}
			return ""
		}
		return one(d.c.n, d.got)
	case "allgw":
		if sc.disc[1] {
			return all(d.got)
		}
	case "allprov":
		if sc.disc[0] {
			return all(d.got)
		}
	case "near", "range":
		if !sc.disc[1] {
			if !strings.HasPrefix(d.got, "error") && d.got != "" {
				return "discovery is off"
			}
			return ""
		}
		isErr := strings.HasPrefix(d.got, "error")
		if isErr && d.stopped {
			return ""
		}
		// every set between what was known and what had been served
		var must, may []int
		for i := range nums {
			if _, ok := low[i]; ok {
				must = append(must, i)
			} else if _, ok := high[i]; ok {
				may = append(may, i)
			}
		}
		for m := 0; m < 1<<len(may); m++ {
			set := append([]int{}, must...)
			for j, i := range may {
				if m>>j&1 == 1 {
					set = append(set, i)
				}
			}
			if d.c.kind == "near" {
				if !isErr && near(set, d.c) == norm(d.got) {
					return ""
				}
			} else if rangeOK(set, d.c.n, d.got) {
				return ""
			}
		}
		return fmt.Sprintf("right for no contents between %v and %v", low, high)
	}
	return ""
}

func norm(s string) string {
	l := strings.Fields(s)
	sort.Strings(l)
	return strings.Join(l, " ")
}

func val(i int) *big.Int { n, _ := new(big.Int).SetString(hexID(i), 16); return n }

var size = new(big.Int).Lsh(big.NewInt(1), 256)

// near is the set of the k members nearest to the CID, ties counter-clockwise.
func near(set []int, c call) string {
	type m struct {
		i   int
		d   *big.Int
		ccw bool
	}
	var l []m
	for _, i := range set {
		if i == c.ex {
			continue
		}
		cw := new(big.Int).Mod(new(big.Int).Sub(val(i), val(c.n)), size)
		cc := new(big.Int).Mod(new(big.Int).Sub(val(c.n), val(i)), size)
		if cc.Cmp(cw) <= 0 {
			l = append(l, m{i, cc, true})
		} else {
			l = append(l, m{i, cw, false})
		}
	}
	sort.Slice(l, func(a, b int) bool {
		if x := l[a].d.Cmp(l[b].d); x != 0 {
			return x < 0
		}
		return l[a].ccw && !l[b].ccw
	})
	if len(l) > c.k {
		l = l[:c.k]
	}
	var s []string
	for _, x := range l {
		s = append(s, nums[x.i])
	}
	sort.Strings(s)
	return strings.Join(s, " ")
}

// rangeOK: the range spans, clockwise, all other members (they are fewer than 16).
func rangeOK(set []int, self int, got string) bool {
	var l []string
	for _, i := range set {
		if i != self {
			l = append(l, nums[i])
		}
	}
	sort.Strings(l)
	if len(l) < 2 {
		return strings.HasPrefix(got, "error")
	}
	for i := range l {
		if got == l[(i+1)%len(l)]+" "+l[i] {
			return true
		}
	}
	return false
}

func main() {
	vh.Main(func(t *vh.T) {
		logging.SetLogLevel("fatal")
		k := func(s string) call { return call{kind: s, ex: -1} }
		n := func(s string, i int) call { return call{kind: s, n: i, ex: -1} }
		near := func(i, k, ex int) call { return call{kind: "near", n: i, k: k, ex: ex} }
		th := func(l ...[]call) [][]call { return l }
		o := func(l ...call) []call { return l }
		v := []version{{0: 1, 2: 1}, {0: 2, 2: 1, 1: 1}, {0: 2, 2: 3, 1: 1, 3: 1}}
		both, onlyG, onlyP := [2]bool{true, true}, [2]bool{false, true}, [2]bool{true, false}
		r := k("refresh")
		scs := []scenario{
			{"refresh-refresh", v, onlyG, nil, th(o(r, k("allgw")), o(r, n("gw", 0))), [2]int{2, 4}, 0, true, 0},
			{"refresh-refresh-both", v, both, nil, th(o(r, k("allgw")), o(r, k("allprov"))), [2]int{2, 3}, 0, true, 0},
			{"refresh-refresh-refresh", v, onlyP, nil, th(o(r, k("allprov")), o(r, n("prov", 0)), o(r)), [2]int{2, 3}, 0, true, 0},
			{"serve-refresh-refresh", v, onlyG, o(r), th(o(n("serve", 1), r, k("allgw"), n("gw", 0)), o(r, n("gw", 1))), [2]int{2, 4}, 0, true, 0},
			{"serve-refresh-prov", v, onlyP, o(r), th(o(n("serve", 1), r, k("allprov"), n("prov", 0)), o(n("prov", 1), n("prov", 3))), [2]int{2, 4}, 0, false, 0},
			{"serve-twice-refresh", v, onlyG, o(r), th(o(n("serve", 1), r, k("allgw")), o(n("serve", 2), r, k("allgw"))), [2]int{2, 4}, 0, true, 0},
			{"unknown-unknown", v, onlyG, o(r), th(o(n("gw", 4), n("gw", 0)), o(n("gw", 4))), [2]int{2, 4}, 0, false, 0},
			{"unknown-gw-both", v, both, o(r), th(o(n("gw", 4), n("prov", 0)), o(r, n("prov", 4))), [2]int{2, 3}, 0, true, 0},
			{"unknown-prov-refresh", v, onlyP, o(r, n("serve", 1)), th(o(n("prov", 4), n("prov", 0)), o(r, n("prov", 1))), [2]int{2, 4}, 0, false, 0},
			{"near-near-excluding", v, onlyG, o(n("serve", 2), r), th(o(near(4, 2, 0)), o(near(4, 2, 1))), [2]int{3, 5}, 0, false, 0},
			{"near-near-absent-cid", v, onlyG, o(n("serve", 2), r), th(o(near(4, 2, -1)), o(near(4, 3, -1))), [2]int{2, 5}, 0, false, 0},
			{"near-refresh", v, onlyG, o(r, n("serve", 2)), th(o(near(4, 2, -1), near(0, 16, 0)), o(r, near(4, 3, -1))), [2]int{2, 4}, 0, false, 0},
			{"range-refresh", v, onlyG, o(n("serve", 1), r, n("serve", 2)), th(o(n("range", 0), n("range", 2)), o(r, n("range", 1))), [2]int{2, 4}, 0, false, 0},
			{"range-near-refresh", v, onlyG, o(n("serve", 1), r, n("serve", 2)), th(o(n("range", 0)), o(near(3, 1, -1)), o(r)), [2]int{2, 3}, 0, true, 0},
			{"refresh-shutdown", v, onlyG, o(r), th(o(r, k("allgw")), o(k("shutdown"))), [2]int{2, 4}, 0, false, 0},
			{"refresh-shutdown-both", v, both, nil, th(o(r, k("allgw"), k("allprov")), o(k("shutdown"))), [2]int{2, 3}, 0, true, 0},
			{"refresh-shutdownwait", v, both, nil, th(o(r, k("allgw")), o(k("shutdownwait"))), [2]int{2, 3}, 0, true, 0},
			{"near-shutdown", v, onlyG, o(r), th(o(near(4, 2, -1), near(4, 2, 0)), o(k("shutdown"))), [2]int{2, 3}, 0, false, 0},
			{"gw-shutdown", v, onlyG, o(r), th(o(n("gw", 0), n("gw", 4)), o(k("shutdownwait")), o(n("range", 0))), [2]int{2, 3}, 0, true, 0},
			{"shutdown-shutdown", v, onlyG, o(r), th(o(k("shutdown")), o(k("shutdown"))), [2]int{2, 4}, 0, false, 0},
			{"shutdown-shutdownwait", v, both, o(r), th(o(k("shutdown")), o(k("shutdownwait")), o(r)), [2]int{2, 3}, 0, true, 0},
			{"start-start", v, onlyG, nil, th(o(k("start")), o(k("start"), r, k("allgw"))), [2]int{2, 3}, 0, true, 0},
			{"restart-restart", v, onlyG, o(r, k("shutdownwait")), th(o(k("start"), r, k("allgw")), o(k("start"), n("gw", 0))), [2]int{2, 3}, 0, true, 0},
			{"restart-lookups", v, both, o(r), th(o(k("shutdown"), k("start"), r, k("allgw")), o(near(4, 2, -1), n("prov", 0))), [2]int{2, 3}, 0, true, 0},
			{"restart-refresh", v, onlyG, o(r), th(o(k("shutdown"), k("start")), o(r, k("allgw"))), [2]int{2, 3}, 0, true, 0},
			{"periodic-lookups", v, onlyG, o(r, n("serve", 1)), th(o(near(4, 2, -1), n("gw", 0)), o(k("allgw"), near(4, 3, 0))), [2]int{2, 3}, 4, true, 0},
			{"periodic-refresh", v, both, o(n("serve", 1)), th(o(r, k("allgw")), o(n("prov", 0), k("allprov"))), [2]int{2, 3}, 4, true, 0},
			{"periodic-shutdown", v, onlyG, o(n("serve", 1)), th(o(k("shutdown")), o(r, k("allgw"))), [2]int{2, 3}, 4, true, 0},
		}
		for _, sc := range scs {
			sc.every = time.Hour
			run(t, sc)
			// how often the register is read makes no difference
			for _, d := range []time.Duration{10 * time.Second, 50 * time.Millisecond} {
				sc.every, sc.bound = d, [2]int{1, 1}
				sc.name += " every " + d.String()
				run(t, sc)
			}
		}
		t.Assume("scheduling points are the manager's synchronisation operations, its requests to the register and its timers; schedules with more preemptions than the stated bound are not explored")
	})
}
