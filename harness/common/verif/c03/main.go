//go:build go1.21

// C03: every history of the gateway's database-backed offer store against a set
// model.  The database's own clock is used: all histories run up to their "time
// passes" mark, then time really passes once, then all of them go on.
package main

import (
	"fmt"
	"math/big"
	"os"
	"sort"
	"strings"
	"syscall"
	"time"

	"github.com/ConsenSys/fc-retrieval/common/pkg/cidoffer"
	"github.com/ConsenSys/fc-retrieval/common/pkg/logging"
	"github.com/ConsenSys/fc-retrieval/common/pkg/offermgr"
	"github.com/ConsenSys/fc-retrieval/common/verif/offers"
	"github.com/ConsenSys/fc-retrieval/common/verif/vh"
)

// within a history's own block of CIDs
var locals = []int64{0, 1, 0x80, 0xff}
var points = []int64{0, 1, 2, 0x80, 0xfe, 0xff}

type tmpl struct {
	name   string
	prov   int64
	cids   []int // indices into locals
	price  uint64
	expiry string // far, soon, past, 9h, 9hago, huge
	qos    uint64
	sig    string
}

var pool = []tmpl{
	{"G{0,1}", 1, []int{0, 1}, 5, "far", 1, "s0"},
	{"G{3,1,3,0}", 2, []int{3, 1, 3, 0}, 1<<63 - 1, "far", 1<<63 - 1, "x'y\"z"},
	{"G{1,2} soon", 1, []int{1, 2}, 5, "soon", 1, ""},
	{"D{1}", 1, []int{1}, 5, "far", 1, "s3"},
	{"D{1} other qos", 1, []int{1}, 5, "far", 2, "s4"},
	{"D{0} soon", 3, []int{0}, 0, "soon", 0, "s5"},
	{"D{2} in 9h", 1, []int{2}, 5, "9h", 1, "s6"},
	{"D{2} 9h ago", 1, []int{2}, 5, "9hago", 1, "s7"},
	{"D{3} huge expiry", 1, []int{3}, 5, "huge", 1, "s8"},
	{"D{0} past", 1, []int{0}, 5, "past", 1, "s9"},
	{"G{2,3} past", 1, []int{2, 3}, 5, "past", 1, "s10"},
	{"D{3} never", 1, []int{3}, 5, "never", 1, "s11"},
}

var expiry map[string]int64

// block numbers start above zero so that the range below a block is not empty
func cidOf(block int, local int64) *big.Int {
	n := new(big.Int).Lsh(big.NewInt(int64(block+1)), 200)
	return n.Add(n, big.NewInt(local))
}

type hist struct {
	block int
	pre   []int
	post  []int
	added map[int]bool
	made  map[int]*cidoffer.CIDOffer
}

func (h *hist) offer(i int) *cidoffer.CIDOffer {
	if o := h.made[i]; o != nil {
		return o
	}
	p := pool[i]
	o := offers.Offer{Provider: p.prov, Price: p.price, Expiry: expiry[p.expiry], QoS: p.qos, Sig: p.sig}
	for _, l := range p.cids {
		o.CIDs = append(o.CIDs, cidOf(h.block, locals[l]))
	}
	h.made[i] = o.Make()
	return h.made[i]
}

func (h *hist) names() []string {
	var l []string
	for _, i := range h.pre {
		l = append(l, "add "+pool[i].name)
	}
	if h.post != nil {
		l = append(l, "time passes")
	}
	for _, i := range h.post {
		l = append(l, "add "+pool[i].name)
	}
	return l
}

func add(t *vh.T, mgr *offermgr.FCROfferMgr, h *hist, i int) {
	var err error
	if len(pool[i].cids) == 1 {
		err = mgr.AddDHTOffer(h.offer(i))
	} else {
		err = mgr.AddGroupOffer(h.offer(i))
	}
	t.Transition()
	if err != nil {
		t.Violate("db:refused", fmt.Sprintf("%v: adding %s failed: %v", h.names(), pool[i].name, err), h.names())
		return
	}
	h.added[i] = true
}

func check(t *vh.T, mgr *offermgr.FCROfferMgr, h *hist, late bool, when string) {
	t.Case(func() string { return fmt.Sprint(h.names(), when) })
	alive := func(i int) bool {
		e := pool[i].expiry
		return h.added[i] && e != "past" && e != "9hago" && !(late && e == "soon")
	}
	want := func(f func(tm tmpl) bool) []string {
		r := []string{}
		for i := range pool {
			if alive(i) && f(pool[i]) {
				r = append(r, offers.Show(h.made[i]))
			}
		}
		sort.Strings(r)
		return r
	}
	rep := map[string]interface{}{"history": h.names(), "checked": when, "TZ": os.Getenv("TZ")}
	bad := func(key, format string, a ...interface{}) {
		t.Violate("db:"+key, fmt.Sprintf("TZ=%s %v, %s: ", os.Getenv("TZ"), h.names(), when)+fmt.Sprintf(format, a...), rep)
	}
	same := func(a, b []string) bool { return strings.Join(a, "\n") == strings.Join(b, "\n") }
	t.Try("db", rep, func() {
		for _, p := range points {
			id := offers.CID(cidOf(h.block, p))
			w := want(func(tm tmpl) bool {
				for _, c := range tm.cids {
					if locals[c] == p {
						return true
					}
				}
				return false
			})
			l, ok := mgr.GetOffers(&id)
			if r := offers.ShowAll(l); !same(r, w) || ok != (len(w) > 0) {
				bad("by-cid", "offers of CID %d: %v %v, want %v", p, r, ok, w)
			}
			l, ok = mgr.GetGroupOffers(&id)
			if r := offers.ShowAll(l); !same(r, w) || ok != (len(w) > 0) {
				bad("group", "group listing of CID %d: %v %v, want %v", p, r, ok, w)
			}
			l, ok = mgr.GetDHTOffers(&id)
			if r := offers.ShowAll(l); !same(r, w) || ok != (len(w) > 0) {
				bad("dht", "DHT listing of CID %d: %v %v, want %v", p, r, ok, w)
			}
		}
		for i := range pool {
			o, ok := mgr.GetOfferByDigest(h.offer(i).GetMessageDigest())
			if ok != alive(i) || ok && offers.Show(o) != offers.Show(h.made[i]) {
				bad("digest", "digest of %s: %s %v, want present=%v", pool[i].name, offers.Show(o), ok, alive(i))
			}
		}
		if o, ok := mgr.GetOfferByDigest([cidoffer.CIDOfferDigestSize]byte{7}); ok || o != nil {
			bad("digest", "unknown digest found")
		}
		for a, lo := range points {
			for _, hi := range points[a:] {
				x, y := offers.CID(cidOf(h.block, lo)), offers.CID(cidOf(h.block, hi))
				w := want(func(tm tmpl) bool {
					for _, c := range tm.cids {
						if locals[c] >= lo && locals[c] <= hi {
							return true
						}
					}
					return false
				})
				for _, lim := range []int{1, 2, 100} {
					l, ok := mgr.GetDHTOffersWithinRange(&x, &y, lim)
					r := offers.ShowAll(l)
					n := len(w)
					if lim < n {
						n = lim
					}
					good := len(r) == n && ok == (n > 0)
					k := 0
					for _, s := range r {
						for k < len(w) && w[k] < s {
							k++
						}
						if k == len(w) || w[k] != s {
							good = false
							break
						}
						k++
					}
					if !good {
						bad("range", "range %d..%d limit %d: %v %v, want %d of %v", lo, hi, lim, r, ok, n, w)
					}
				}
			}
		}
	})
	var st []string
	for i := range pool {
		if alive(i) {
			st = append(st, pool[i].name)
		}
	}
	if t.State(fmt.Sprint(st, late, os.Getenv("TZ"))) {
		t.Sample(map[string]interface{}{"history": h.names(), "checked": when, "TZ": os.Getenv("TZ"), "live": st})
	}
	t.Eval()
}

// many: CIDs with many offers, and offers with many CIDs.
func many(t *vh.T, mgr *offermgr.FCROfferMgr, block int) {
	for k, n := range []int{1, 2, 9, 10, 11, 63, 64, 65, 100, 101, 127, 128, 129, 255, 256, 257, 300} {
		what := fmt.Sprintf("%d offers for one CID, and one offer of %d CIDs", n, n)
		t.Case(func() string { return what })
		t.Eval()
		t.Distinct(what)
		bad := func(key, format string, a ...interface{}) {
			t.Violate("db:many:"+key, what+": "+fmt.Sprintf(format, a...), what)
		}
		t.Try("db", what, func() {
			at := cidOf(block+2*k, 1)
			var want []string
			for i := 0; i < n; i++ {
				o := offers.Offer{Provider: int64(i + 1), Price: uint64(i), Expiry: expiry["far"], QoS: 1, Sig: "s", CIDs: []*big.Int{at}}
				if i%3 == 1 {
					o.CIDs = append(o.CIDs, cidOf(block+2*k, int64(100+i)))
				}
				x := o.Make()
				f := mgr.AddDHTOffer
				if len(o.CIDs) > 1 {
					f = mgr.AddGroupOffer
				}
				if err := f(x); err != nil {
					bad("refused", "offer %d: %v", i, err)
					return
				}
				want = append(want, offers.Show(x))
				t.Transition()
			}
			sort.Strings(want)
			same := func(key string, l []cidoffer.CIDOffer, ok bool, w []string) {
				if r := offers.ShowAll(l); !ok || strings.Join(r, "|") != strings.Join(w, "|") {
					bad(key, "%d of %d: %v", len(r), len(w), ok)
				}
			}
			id := offers.CID(at)
			l, ok := mgr.GetOffers(&id)
			same("by-cid", l, ok, want)
			l, ok = mgr.GetGroupOffers(&id)
			same("group", l, ok, want)
			l, ok = mgr.GetDHTOffers(&id)
			same("dht", l, ok, want)
			for _, lim := range []int{1, n, n + 1, 1000} {
				l, ok = mgr.GetDHTOffersWithinRange(&id, &id, lim)
				if lim >= n {
					same("range", l, ok, want)
				} else if len(l) != lim || !ok {
					bad("range", "limit %d: %d %v", lim, len(l), ok)
				}
			}
			o := offers.Offer{Provider: 1, Price: uint64(n), Expiry: expiry["far"], QoS: 1, Sig: "s"}
			for i := 0; i < n; i++ {
				o.CIDs = append(o.CIDs, cidOf(block+2*k+1, int64((i*7)%n+i/n)))
			}
			// each CID once, in an order of its own
			seen := map[string]bool{}
			for i := range o.CIDs {
				for j := int64(0); seen[o.CIDs[i].String()]; j++ {
					o.CIDs[i] = cidOf(block+2*k+1, j)
				}
				seen[o.CIDs[i].String()] = true
			}
			x := o.Make()
			if err := mgr.AddGroupOffer(x); err != nil {
				bad("refused", "the large offer: %v", err)
				return
			}
			w := []string{offers.Show(x)}
			for _, c := range o.CIDs {
				id := offers.CID(c)
				l, ok := mgr.GetOffers(&id)
				same("large", l, ok, w)
			}
			a, b := offers.CID(cidOf(block+2*k+1, 0)), offers.CID(cidOf(block+2*k+1, 1000))
			l, ok = mgr.GetDHTOffersWithinRange(&a, &b, 5)
			same("large range", l, ok, w)
			if y, ok := mgr.GetOfferByDigest(x.GetMessageDigest()); !ok || offers.Show(y) != w[0] {
				bad("large", "digest: %v", ok)
			}
		})
	}
}

func main() {
	zones := []string{"UTC", "JST-9", "PST8PDT", "IST-5:30"}
	shard := 0
	fmt.Sscan(os.Getenv("VERIF_SHARD"), &shard)
	if os.Getenv("VERIF_TZ") == "" {
		env := append(os.Environ(), "VERIF_TZ=1", "DOCKER_NAME=verif")
		out := env[:0:0]
		for _, e := range env {
			if !strings.HasPrefix(e, "TZ=") {
				out = append(out, e)
			}
		}
		out = append(out, "TZ="+zones[shard%len(zones)])
		exe, _ := os.Executable()
		panic(syscall.Exec(exe, os.Args, out))
	}
	vh.Main(func(t *vh.T) {
		logging.SetLogLevel("fatal")
		// few file descriptors, so that look-ups that keep connections are seen to break later ones
		var lim syscall.Rlimit
		syscall.Getrlimit(syscall.RLIMIT_NOFILE, &lim)
		if err := syscall.Setrlimit(syscall.RLIMIT_NOFILE, &syscall.Rlimit{Cur: 200, Max: lim.Max}); err != nil {
			panic(err)
		}
		defer syscall.Setrlimit(syscall.RLIMIT_NOFILE, &lim)
		mgr := offermgr.NewFCROfferMgr()
		start := time.Now()
		soon := time.Duration(t.Pick(25, 120)) * time.Second
		now := start.Unix()
		// an expiry past year 9999 and the largest a database integer can hold
		expiry = map[string]int64{"far": now + 10000000, "soon": now + int64(soon/time.Second), "past": now - 5, "9h": now + 9*3600 - 60, "9hago": now - 9*3600 + 60, "huge": 253402300800 + 5, "never": 1<<63 - 1}
		var hs []*hist
		n := 0
		mk := func(pre, post []int) {
			n++
			if n%(t.Shards/len(zones)) == t.Shard/len(zones) { // each zone sees every history
				hs = append(hs, &hist{block: len(hs), pre: append([]int(nil), pre...), post: append([]int(nil), post...), added: map[int]bool{}, made: map[int]*cidoffer.CIDOffer{}})
			}
		}
		var seqs func(max int, ops []int, f func([]int))
		seqs = func(max int, ops []int, f func([]int)) {
			var rec func(s []int)
			rec = func(s []int) {
				f(s)
				if len(s) < max {
					for _, o := range ops {
						rec(append(s[:len(s):len(s)], o))
					}
				}
			}
			rec(nil)
		}
		every := make([]int, len(pool))
		for i := range every {
			every[i] = i
		}
		seqs(2, every, func(s []int) { mk(s, nil) })
		core := []int{0, 2, 3, 5}
		seqs(t.Pick(3, 4), core, func(s []int) {
			if len(s) > 2 {
				mk(s, nil)
			}
		})
		seqs(t.Pick(1, 2), core, func(a []int) {
			seqs(t.Pick(1, 2), core, func(b []int) {
				if len(a)+len(b) > 1 {
					mk(a, b)
				}
			})
		})
		t.Note("histories", n)
		done := 0
		for _, h := range hs {
			for _, i := range h.pre {
				add(t, mgr, h, i)
			}
		}
		for _, h := range hs {
			if time.Since(start) > soon-2*time.Second || len(t.Keys()) > 6 {
				break
			}
			check(t, mgr, h, false, "before time passes")
			done++
		}
		if done < len(hs) && len(t.Keys()) == 0 {
			t.NotExhaustive(fmt.Sprintf("%d of %d histories checked before the short expiry", done, len(hs)))
		}
		if len(t.Keys()) > 0 {
			return
		}
		for time.Since(start) < soon+1500*time.Millisecond {
			time.Sleep(100 * time.Millisecond)
			t.Beat()
		}
		for _, h := range hs {
			for _, i := range h.post {
				add(t, mgr, h, i)
			}
			check(t, mgr, h, true, "after time passed")
			t.Trace()
			if t.Over() {
				t.NotExhaustive("deadline")
				break
			}
		}
		if t.Shard/len(zones) == 0 {
			many(t, mgr, len(hs)+1)
		}
		// the store opened again still answers the same
		mgr2 := offermgr.NewFCROfferMgr()
		for i, h := range hs {
			if i%10 == 0 {
				check(t, mgr2, h, true, "through a second handle")
			}
		}
		t.Assume("CID ranges are from a lower to a higher identifier and limits are positive; prices and QoS values fit in 63 bits (larger ones are refused by the database driver with an error)")
	})
}
