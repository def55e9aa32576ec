//go:build go1.21

// C05: every interleaving (to a preemption bound) of concurrent adds and
// look-ups on the gateway's database-backed store, checked for linearizability.
package main

import (
	"fmt"
	"math/big"
	"os"
	"sort"
	"strings"
	"time"

	"github.com/ConsenSys/fc-retrieval/common/pkg/cidoffer"
	"github.com/ConsenSys/fc-retrieval/common/pkg/offermgr"
	"github.com/ConsenSys/fc-retrieval/common/pkg/logging"
	"github.com/ConsenSys/fc-retrieval/common/verif/lin"
	"github.com/ConsenSys/fc-retrieval/common/verif/offers"
	"github.com/ConsenSys/fc-retrieval/common/verif/vh"
	"github.com/ConsenSys/fc-retrieval/common/verif/vsched"
)

const base = 1_600_000_000

var cids = []*big.Int{big.NewInt(3), big.NewInt(16), big.NewInt(99)}
var pool []offers.Offer
var real []*cidoffer.CIDOffer
var shown []string

type call struct {
	kind string // add, get, group, dht, range, digest
	n    int    // offer or cid
	lim  int
}

func (c call) String() string {
	switch c.kind {
	case "add", "digest":
		return c.kind + " " + pool[c.n].Name
	case "range":
		return fmt.Sprintf("range(limit %d)", c.lim)
	}
	return fmt.Sprintf("%s cid%d", c.kind, c.n)
}

type store map[int]bool

func (s store) do(c call, now int64) string {
	sel := func(f func(i int) bool) string {
		var r []string
		for i := range pool {
			if s[i] && pool[i].Expiry > now && f(i) {
				r = append(r, shown[i])
			}
		}
		sort.Strings(r)
		if c.kind == "range" && len(r) > c.lim {
			return fmt.Sprintf("some %d of %d", c.lim, len(r))
		}
		return strings.Join(r, " ")
	}
	switch c.kind {
	case "add":
		s[c.n] = true
		return "ok"
	case "get", "group", "dht":
		return sel(func(i int) bool { return pool[i].Has(cids[c.n]) })
	case "range":
		return sel(func(i int) bool { return true })
	}
	if s[c.n] && pool[c.n].Expiry > now {
		return shown[c.n]
	}
	return "none"
}

func do(m *offermgr.FCROfferMgr, c call) string {
	var l []cidoffer.CIDOffer
	switch c.kind {
	case "add":
		var err error
		if len(pool[c.n].CIDs) > 1 {
			err = m.AddGroupOffer(real[c.n])
		} else {
			err = m.AddDHTOffer(real[c.n])
		}
		if err != nil {
			return "error " + err.Error()
		}
		return "ok"
	case "get":
		id := offers.CID(cids[c.n])
		l, _ = m.GetOffers(&id)
	case "group":
		id := offers.CID(cids[c.n])
		l, _ = m.GetGroupOffers(&id)
	case "dht":
		id := offers.CID(cids[c.n])
		l, _ = m.GetDHTOffers(&id)
	case "range":
		a, b := offers.CID(cids[0]), offers.CID(cids[2])
		l, _ = m.GetDHTOffersWithinRange(&a, &b, c.lim)
	case "digest":
		o, ok := m.GetOfferByDigest(real[c.n].GetMessageDigest())
		if !ok {
			return "none"
		}
		return offers.Show(o)
	}
	return strings.Join(offers.ShowAll(l), " ")
}

type scenario struct {
	name    string
	before  []call
	wait    time.Duration
	threads [][]call
	bound   [2]int
}

func run(t *vh.T, sc scenario) {
	t.Explore(vsched.Config{Name: sc.name, MaxPreempt: sc.bound[t.Pick(0, 1)], MaxExecs: 600000}, func(x *vsched.X) {
		setup()
		for _, c := range sc.before {
			do(m, c)
		}
		now := int64(base)
		n := 0
		for _, th := range sc.threads {
			n += len(th)
		}
		calls := make([]lin.Call, n, n+100)
		cs := make([]call, n, n+100)
		slot := 0
		for i, th := range sc.threads {
			th, first := th, slot
			slot += len(th)
			x.Go(fmt.Sprintf("t%d", i), func() {
				for j, c := range th {
					k := first + j
					vsched.Point("call")
					cs[k] = c
					calls[k] = lin.Call{Name: c.String(), Start: x.Steps(), End: 1 << 30}
					calls[k].Result = do(m, c)
					calls[k].End = x.Steps()
				}
			})
		}
		x.Join()
		// afterwards nothing may be missing
		after := []call{{kind: "range", lim: 100}}
		for i := range cids {
			after = append(after, call{kind: "get", n: i})
		}
		for i := range pool {
			after = append(after, call{kind: "digest", n: i})
		}
		for _, c := range after {
			cs = append(cs, c)
			calls = append(calls, lin.Call{Name: "afterwards " + c.String(), Start: x.Steps() + 1, End: x.Steps() + 2, Result: do(m, c)})
		}
		var s store
		reset := func() {
			s = store{}
			for _, c := range sc.before {
				s.do(c, base)
			}
		}
		// the part after Join is sequential and changes nothing: check it against the final model
		if !lin.Check(calls[:n], reset, func(i int) string { return norm(cs[i], calls[i].Result, s.do(cs[i], now)) }, func() bool {
			for i := n; i < len(cs); i++ {
				if s.do(cs[i], now) != calls[i].Result {
					return false
				}
			}
			return true
		}) {
			var l []string
			for _, c := range calls {
				l = append(l, fmt.Sprintf("[%d,%d] %s = %s", c.Start, c.End, c.Name, c.Result))
			}
			x.Fail("not-serialisable", "no one-at-a-time order explains:\n%s", strings.Join(l, "\n"))
			return
		}
		var l []string
		for _, c := range calls[:n] {
			l = append(l, c.Name+"="+c.Result)
		}
		sort.Strings(l)
		x.Outcome(strings.Join(l, "; "))
	})
}

// norm lets a limited listing return any choice of the right size.
func norm(c call, got, want string) string {
	if strings.HasPrefix(want, "some ") && strings.Count(got, "{") == c.lim {
		return got
	}
	return want
}

var block int64
var m *offermgr.FCROfferMgr

// setup gives this execution its own block of CIDs.
func setup() {
	block++
	b := new(big.Int).Lsh(big.NewInt(block), 200)
	for i := range cids {
		cids[i] = new(big.Int).Add(b, big.NewInt(int64(i*16)))
	}
	c := func(i ...int) []*big.Int {
		r := make([]*big.Int, len(i))
		for k, x := range i {
			r[k] = cids[x]
		}
		return r
	}
	const far = 4000000000
	pool = []offers.Offer{
		{Name: "G{0,1}", Provider: 1, CIDs: c(0, 1), Price: 5, Expiry: far, QoS: 1, Sig: "s0"},
		{Name: "G{1,0}", Provider: 2, CIDs: c(1, 0), Price: 5, Expiry: far, QoS: 1, Sig: "s1"},
		{Name: "D{0}", Provider: 1, CIDs: c(0), Price: 5, Expiry: far, QoS: 1, Sig: "s2"},
		{Name: "D{0}b", Provider: 2, CIDs: c(0), Price: 5, Expiry: far, QoS: 1, Sig: "s3"},
		{Name: "D{1}", Provider: 1, CIDs: c(1), Price: 5, Expiry: far, QoS: 1, Sig: "s4"},
	}
	real, shown = nil, nil
	for _, o := range pool {
		real = append(real, o.Make())
		shown = append(shown, offers.Show(real[len(real)-1]))
	}
}

func main() {
	vh.Main(func(t *vh.T) {
		logging.SetLogLevel("fatal")
		os.Setenv("DOCKER_NAME", "verif")
		setup()
		m = offermgr.NewFCROfferMgr()
		add := func(i int) call { return call{kind: "add", n: i} }
		get := func(i int) call { return call{kind: "get", n: i} }
		rng := func(l int) call { return call{kind: "range", lim: l} }
		dig := func(i int) call { return call{kind: "digest", n: i} }
		th := func(l ...[]call) [][]call { return l }
		o := func(l ...call) []call { return l }
		scs := []scenario{
			{"db-add-add-same-offer", nil, 0, th(o(add(0)), o(add(0))), [2]int{3, 4}},
			{"db-add-add", nil, 0, th(o(add(0)), o(add(1))), [2]int{3, 4}},
			{"db-add-look-both", nil, 0, th(o(add(0)), o(get(0), get(1))), [2]int{2, 3}},
			{"db-add-look-back", nil, 0, th(o(add(0)), o(get(1), get(0))), [2]int{2, 3}},
			{"db-add-digest-look", nil, 0, th(o(add(0)), o(dig(0), get(1))), [2]int{3, 4}},
			{"db-in-order", nil, 0, th(o(add(0), add(2)), o(get(0))), [2]int{3, 4}},
			{"db-add-range", o(add(2)), 0, th(o(add(0)), o(rng(10))), [2]int{3, 4}},
			{"db-add-three", o(add(2)), 0, th(o(add(0)), o(add(4)), o(get(1))), [2]int{2, 3}},
			{"db-add-again-look", o(add(0)), 0, th(o(add(0)), o(get(0), dig(0))), [2]int{3, 4}},
		}
		for i, sc := range scs {
			if t.Mine(i) {
				run(t, sc)
			}
		}
		t.Assume("scheduling points are the database calls of the store, a transaction holding the single writer; schedules with more preemptions than the stated bound are not explored")
	})
}
