//go:build go1.21

// C02: every history of the provider's in-memory offer store against a set model.
package main

import (
	"fmt"
	"math/big"
	"sort"
	"strings"
	"time"

	"github.com/ConsenSys/fc-retrieval/common/pkg/cidoffer"
	"github.com/ConsenSys/fc-retrieval/common/pkg/fcroffermgr"
	"github.com/ConsenSys/fc-retrieval/common/pkg/logging"
	"github.com/ConsenSys/fc-retrieval/common/verif/offers"
	"github.com/ConsenSys/fc-retrieval/common/verif/vh"
	"github.com/ConsenSys/fc-retrieval/common/verif/vsched"
)

var (
	top  = new(big.Int).Sub(new(big.Int).Lsh(big.NewInt(1), 256), big.NewInt(1))
	half = new(big.Int).Lsh(big.NewInt(1), 255)
	cids = []*big.Int{big.NewInt(0), big.NewInt(16), half, top}
	pts  = append(append([]*big.Int{}, cids...), big.NewInt(15), new(big.Int).Sub(top, big.NewInt(1)))
)

type op struct {
	name  string
	kind  string // group, dht, wait, probe
	o     int    // offer
	d     time.Duration
	probe func(mgr *fcroffermgr.FCROfferMgr)
}

const base = 1_600_000_000

var pool []offers.Offer

func c(i ...int) []*big.Int {
	r := make([]*big.Int, len(i))
	for k, x := range i {
		r[k] = cids[x]
	}
	return r
}

// model: offers stored and not expired, by pool index
type model struct {
	group, dht map[int]bool
}

func live(m map[int]bool, now int64) []int {
	var r []int
	for i := range m {
		if pool[i].Expiry > now {
			r = append(r, i)
		}
	}
	sort.Ints(r)
	return r
}

func want(idx []int, f func(o offers.Offer) bool) []string {
	r := []string{}
	for _, i := range idx {
		if f(pool[i]) {
			r = append(r, offers.Show(real[i]))
		}
	}
	sort.Strings(r)
	return r
}

var real []*cidoffer.CIDOffer

func inRange(n, lo, hi *big.Int) bool {
	if lo.Cmp(hi) <= 0 {
		return n.Cmp(lo) >= 0 && n.Cmp(hi) <= 0
	}
	return n.Cmp(lo) >= 0 || n.Cmp(hi) <= 0
}

func eq(a, b []string) bool { return strings.Join(a, "\n") == strings.Join(b, "\n") }

func runSeq(t *vh.T, seq []op, full bool) {
	names := make([]string, len(seq))
	for i := range seq {
		names[i] = seq[i].name
	}
	t.Case(func() string { return strings.Join(names, "; ") })
	f := vsched.Run(func(x *vsched.X) {
		vsched.Advance(time.Duration(base*1e9 - vsched.Now().UnixNano()))
		mgr := fcroffermgr.NewFCROfferMgr()
		m := model{map[int]bool{}, map[int]bool{}}
		bad := func(key, format string, a ...interface{}) {
			t.Violate("store:"+key, strings.Join(names, "; ")+": "+fmt.Sprintf(format, a...), names)
		}
		now := func() int64 { return vsched.Now().Unix() }
		for _, o := range seq {
			t.Transition()
			switch o.kind {
			case "wait":
				vsched.Advance(o.d)
			case "probe":
				o.probe(mgr)
			case "group", "dht":
				var err error
				grp := len(pool[o.o].CIDs) > 1
				set := m.group
				if o.kind == "dht" {
					set = m.dht
					err = mgr.AddDHTOffer(real[o.o])
				} else {
					err = mgr.AddGroupOffer(real[o.o])
				}
				fits := grp == (o.kind == "group")
				alive := pool[o.o].Expiry > now()
				switch {
				case !fits && err == nil:
					bad("wrong-kind-accepted", "%s reported success", o.name)
				case fits && alive && err != nil:
					bad("refused", "%s: %v", o.name, err)
				case fits && alive:
					set[o.o] = true
				}
			}
		}
		// every query, twice: queries clean up and must not disturb
		for pass := 0; pass < 2; pass++ {
			g, d := live(m.group, now()), live(m.dht, now())
			for i, n := range pts {
				id := offers.CID(n)
				has := func(o offers.Offer) bool { return o.Has(n) }
				wg, wd := want(g, has), want(d, has)
				l, ok := mgr.GetGroupOffers(&id)
				if r := offers.ShowAll(l); !eq(r, wg) || ok != (len(wg) > 0) {
					bad("group", "group offers of point %d: %v %v, want %v", i, r, ok, wg)
				}
				l, ok = mgr.GetDHTOffers(&id)
				if r := offers.ShowAll(l); !eq(r, wd) || ok != (len(wd) > 0) {
					bad("dht", "DHT offers of point %d: %v %v, want %v", i, r, ok, wd)
				}
				wa := append(append([]string{}, wg...), wd...)
				sort.Strings(wa)
				l, ok = mgr.GetOffers(&id)
				if r := offers.ShowAll(l); !eq(r, wa) || ok != (len(wa) > 0) {
					bad("all", "offers of point %d: %v %v, want %v", i, r, ok, wa)
				}
			}
			for i := range pool {
				o, ok := mgr.GetOfferByDigest(real[i].GetMessageDigest())
				isIn := (m.group[i] || m.dht[i]) && pool[i].Expiry > now()
				if ok != isIn || isIn && offers.Show(o) != offers.Show(real[i]) {
					bad("digest", "by digest of %s: %v %v, want present=%v", pool[i].Name, offers.Show(o), ok, isIn)
				}
			}
			if o, ok := mgr.GetOfferByDigest([cidoffer.CIDOfferDigestSize]byte{1}); ok || o != nil {
				bad("digest", "unknown digest found")
			}
			if !full && pass == 0 {
				continue
			}
			for i, lo := range pts {
				for j, hi := range pts {
					a, b := offers.CID(lo), offers.CID(hi)
					w := want(d, func(o offers.Offer) bool { return inRange(o.CIDs[0], lo, hi) })
					for _, lim := range []int{0, 1, 2, len(pool) + 5} {
						l, ok := mgr.GetDHTOffersWithinRange(&a, &b, lim)
						r := offers.ShowAll(l)
						n := len(w)
						if lim < n {
							n = lim
						}
						good := len(r) == n && ok == (n > 0)
						k := 0
						for _, s := range r { // each once and wanted: r is a sub-multiset of sorted w
							for k < len(w) && w[k] < s {
								k++
							}
							if k == len(w) || w[k] != s {
								good = false
								break
							}
							k++
						}
						if !good {
							bad("range", "range %d..%d limit %d: %v %v, want %d of %v", i, j, lim, r, ok, n, w)
						}
					}
				}
			}
		}
		t.State(fmt.Sprint(live(m.group, now()), live(m.dht, now()), len(m.group), len(m.dht)))
	})
	if f != nil {
		t.Violate("store:"+f.Key, f.Detail, names)
	}
	t.Trace()
	t.Eval()
}

func all(t *vh.T, name string, ops []op, depth int, full bool) {
	seq := make([]op, 0, depth)
	n := 0
	var rec func()
	rec = func() {
		if t.Over() || len(t.Keys()) > 8 {
			return
		}
		if len(seq) == depth {
			n++
			if t.Mine(n) {
				runSeq(t, seq, full)
			}
			return
		}
		for _, o := range ops {
			seq = append(seq, o)
			rec()
			seq = seq[:len(seq)-1]
		}
	}
	rec()
	if t.Over() {
		t.NotExhaustive(name + ": deadline")
	}
	t.Note(name, fmt.Sprintf("%d operations to depth %d", len(ops), depth))
	t.Sample(map[string]interface{}{"set": name, "last": fmt.Sprint(n)})
}

// many: CIDs with many offers, many CIDs, and offers with many CIDs.
func many(t *vh.T) {
	for k, n := range []int{1, 2, 9, 10, 11, 63, 64, 65, 100, 101, 127, 128, 129, 255, 256, 257, 300} {
		if !t.Mine(k) {
			continue
		}
		what := fmt.Sprintf("%d offers for one CID, %d CIDs with one, and one offer of %d CIDs", n, n, n)
		t.Case(func() string { return what })
		t.Distinct(what)
		bad := func(key, format string, a ...interface{}) {
			t.Violate("store:many:"+key, what+": "+fmt.Sprintf(format, a...), what)
		}
		f := vsched.Run(func(x *vsched.X) {
			vsched.Advance(time.Duration(base*1e9 - vsched.Now().UnixNano()))
			mgr := fcroffermgr.NewFCROfferMgr()
			num := func(i int) *big.Int { return big.NewInt(int64(1000 + 3*i)) }
			var group, dht, ring, elsewhere []string
			var digests []*cidoffer.CIDOffer
			add := func(o offers.Offer) string {
				v := o.Make()
				fn := mgr.AddDHTOffer
				if len(o.CIDs) > 1 {
					fn = mgr.AddGroupOffer
				}
				if err := fn(v); err != nil {
					bad("refused", "%v", err)
				}
				t.Transition()
				digests = append(digests, v)
				return offers.Show(v)
			}
			at := num(0)
			for i := 0; i < n; i++ {
				o := offers.Offer{Provider: int64(i + 1), Price: uint64(i), Expiry: base + 1000, QoS: 1, Sig: "s", CIDs: []*big.Int{at}}
				dht = append(dht, add(o))
				o.CIDs = []*big.Int{at, big.NewInt(int64(900000 + i))}
				o.Expiry = base + 1000 + int64(i%2)*1000
				g := add(o)
				if i%2 == 1 {
					elsewhere = append(elsewhere, g)
				}
				group = append(group, g)
				ring = append(ring, add(offers.Offer{Provider: 1, Price: 1, Expiry: base + 1000, QoS: 1, Sig: "r", CIDs: []*big.Int{num(i + 1)}}))
			}
			var wide []*big.Int
			for i := 0; i <= n; i++ {
				wide = append(wide, big.NewInt(int64(2000000+i)))
			}
			w := add(offers.Offer{Provider: 1, Price: 1, Expiry: base + 1000, QoS: 1, Sig: "w", CIDs: wide})
			same := func(key string, l []cidoffer.CIDOffer, ok bool, want []string) {
				want = append([]string{}, want...)
				sort.Strings(want)
				if r := offers.ShowAll(l); ok != (len(want) > 0) || !eq(r, want) {
					bad(key, "%d of %d: %v", len(r), len(want), ok)
				}
			}
			a, z := offers.CID(at), offers.CID(num(n))
			l, ok := mgr.GetDHTOffers(&a)
			same("dht", l, ok, dht)
			l, ok = mgr.GetGroupOffers(&a)
			same("group", l, ok, group)
			l, ok = mgr.GetOffers(&a)
			same("all", l, ok, append(append([]string{}, dht...), group...))
			for _, lim := range []int{1, n - 1, n, n + 1, 1000} {
				for i, r := range []struct {
					lo, hi int
					want   []string
				}{{0, 0, dht}, {1, n, ring}, {0, n, append(append([]string{}, dht...), ring...)}} {
					lo, hi := offers.CID(num(r.lo)), offers.CID(num(r.hi))
					l, ok := mgr.GetDHTOffersWithinRange(&lo, &hi, lim)
					if lim >= len(r.want) {
						same("range", l, ok, r.want)
					} else if len(l) != lim || ok != (lim > 0) {
						bad("range", "range %d, limit %d: %d %v", i, lim, len(l), ok)
					}
				}
			}
			for _, c := range wide {
				id := offers.CID(c)
				l, ok := mgr.GetOffers(&id)
				same("wide", l, ok, []string{w})
			}
			for _, v := range digests {
				if o, ok := mgr.GetOfferByDigest(v.GetMessageDigest()); !ok || offers.Show(o) != offers.Show(v) {
					bad("digest", "%v %v", offers.Show(o), ok)
				}
			}
			// all are over but every other group offer
			vsched.Advance(1500 * time.Second)
			l, ok = mgr.GetDHTOffersWithinRange(&a, &z, 1000)
			same("range-after", l, ok, nil)
			l, ok = mgr.GetOffers(&a)
			same("after", l, ok, elsewhere)
			l, ok = mgr.GetOffers(&a)
			same("after", l, ok, elsewhere)
		})
		if f != nil {
			t.Violate("store:many:"+f.Key, f.Detail, what)
		}
		t.Trace()
		t.Eval()
	}
}

func main() {
	vh.Main(func(t *vh.T) {
		logging.SetLogLevel("fatal")
		const far, near, soon = base + 1000000, base + 100, base + 10
		pool = []offers.Offer{
			{Name: "G{0,1}", Provider: 1, CIDs: c(0, 1), Price: 5, Expiry: far, QoS: 1, Sig: "s0"},
			{Name: "G{1,2,1} near", Provider: 1, CIDs: c(1, 2, 1), Price: 5, Expiry: near, QoS: 1, Sig: "s1"},
			{Name: "G{1,0} soon", Provider: 2, CIDs: c(1, 0), Price: 5, Expiry: soon, QoS: 1, Sig: "s2"},
			{Name: "G{0,1} other price", Provider: 1, CIDs: c(0, 1), Price: 6, Expiry: far, QoS: 1, Sig: "s3"},
			{Name: "D{1}", Provider: 1, CIDs: c(1), Price: 5, Expiry: far, QoS: 1, Sig: "s4"},
			{Name: "D{1} near", Provider: 2, CIDs: c(1), Price: 5, Expiry: near, QoS: 2, Sig: "s5"},
			{Name: "D{0} soon", Provider: 1, CIDs: c(0), Price: 5, Expiry: soon, QoS: 1, Sig: "s6"},
			{Name: "D{3}", Provider: 1, CIDs: c(3), Price: 5, Expiry: far, QoS: 1, Sig: "s7"},
			{Name: "D{2} huge terms", Provider: 3, CIDs: c(2), Price: 1<<64 - 1, Expiry: 1<<62 - 1, QoS: 1<<64 - 1, Sig: ""},
			{Name: "expired", Provider: 1, CIDs: c(2), Price: 5, Expiry: base - 5, QoS: 1, Sig: "s9"},
		}
		for _, o := range pool {
			real = append(real, o.Make())
		}
		var ops []op
		for i, o := range pool {
			k := "dht"
			if len(o.CIDs) > 1 {
				k = "group"
			}
			ops = append(ops, op{name: "add " + o.Name, kind: k, o: i})
		}
		waits := []op{{name: "20s pass", kind: "wait", d: 20 * time.Second}, {name: "200s pass", kind: "wait", d: 200 * time.Second}}
		probes := []op{
			{name: "look up 1", kind: "probe", probe: func(m *fcroffermgr.FCROfferMgr) { i := offers.CID(cids[1]); m.GetOffers(&i) }},
			{name: "list range", kind: "probe", probe: func(m *fcroffermgr.FCROfferMgr) {
				a, b := offers.CID(cids[0]), offers.CID(cids[3])
				m.GetDHTOffersWithinRange(&a, &b, 10)
			}},
			{name: "by digest", kind: "probe", probe: func(m *fcroffermgr.FCROfferMgr) { m.GetOfferByDigest(real[2].GetMessageDigest()) }},
		}
		wrong := []op{{name: "add G as DHT", kind: "dht", o: 0}, {name: "add D as group", kind: "group", o: 4}}
		many(t)
		// expiry-centred: the offers that expire, time and look-ups
		exp := append([]op{ops[0], ops[1], ops[2], ops[5], ops[6]}, append(waits, probes[:2]...)...)
		all(t, "expiry", exp, t.Pick(5, 6), false)
		everything := append(append(append(append([]op{}, ops...), waits...), probes...), wrong...)
		all(t, "all", everything, t.Pick(3, 4), true)
		// orders of insertion of many DHT offers: the ring behind the range listing
		ring := []op{ops[4], ops[5], ops[6], ops[7], ops[8]}
		all(t, "ring", ring, t.Pick(4, 5), true)
	})
}
