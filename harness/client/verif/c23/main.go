//go:build go1.21

// C23: a client accepts only offers it has verified.
package main

import (
	"errors"
	"fmt"
	"sort"
	"strings"

	"github.com/ConsenSys/fc-retrieval/common/pkg/cid"
	"github.com/ConsenSys/fc-retrieval/common/pkg/cidoffer"
	"github.com/ConsenSys/fc-retrieval/common/pkg/fcrcrypto"
	"github.com/ConsenSys/fc-retrieval/common/pkg/fcrmessages"
	"github.com/ConsenSys/fc-retrieval/common/pkg/nodeid"

	"github.com/ConsenSys/fc-retrieval/client/verif/vclient"
	"github.com/ConsenSys/fc-retrieval/common/verif/vh"
	"github.com/ConsenSys/fc-retrieval/common/verif/vnode"
)

type msg = fcrmessages.FCRMessage
type sub = cidoffer.SubCIDOffer

var (
	t     *vh.T
	w     *vclient.World
	entry *vnode.Ident
	asked = vnode.CID("71", 1)
	wrong = vnode.CID("72", 2)
	pool  = map[string]*sub{}
	seq   int
	count int
)

// offer of a kind; the salt makes it different from others of its kind.
func offer(kind string, salt int) *sub {
	k := fmt.Sprint(kind, "#", salt)
	if pool[k] == nil {
		pool[k] = w.Sub(kind, asked, salt)
	}
	return pool[k]
}

func offers(kinds []string, salt int) []sub {
	out := make([]sub, 0)
	for i, k := range kinds {
		out = append(out, *offer(k, salt+i))
	}
	return out
}

// texts of the offers of these kinds that are to be accepted.
func good(kinds []string, salt int) []string {
	out := []string{}
	for i, k := range kinds {
		if vclient.Good(k) {
			out = append(out, vclient.Show(offer(k, salt+i)))
		}
	}
	sort.Strings(out)
	return out
}

func texts(os []sub) []string {
	out := []string{}
	for i := range os {
		out = append(out, vclient.Show(&os[i]))
	}
	sort.Strings(out)
	return out
}

func same(a, b []string) bool { return strings.Join(a, "\n") == strings.Join(b, "\n") }

// within says whether every text of a is in b as often.
func within(a, b []string) bool {
	n := map[string]int{}
	for _, x := range b {
		n[x]++
	}
	for _, x := range a {
		if n[x]--; n[x] < 0 {
			return false
		}
	}
	return true
}

// Envs are the ways a message arrives; "good" is the genuine one.
var Envs = []string{"good", "wrong key", "another gateway's key", "unsigned", "damaged signature", "another type", "another CID", "another nonce", "an empty body", "no JSON", "another body under the same signature"}

// env builds a message and puts it in an envelope.
func env(kind string, g *vnode.Ident, c *cid.ContentID, nonce int64, build func(c *cid.ContentID, nonce int64) (*msg, error)) *msg {
	switch kind {
	case "another CID":
		c = wrong
	case "another nonce":
		nonce++
	}
	m, err := build(c, nonce)
	vnode.Must(err)
	typ, body := m.GetMessageType(), m.GetMessageBody()
	switch kind {
	case "good", "another CID", "another nonce":
		return g.Sign(m, nil)
	case "wrong key":
		return w.None.Sign(m, nil)
	case "another gateway's key":
		for _, o := range w.G {
			if o != g {
				return o.Sign(m, nil)
			}
		}
	case "unsigned":
		return m
	case "damaged signature":
		g.Sign(m, nil)
		s := []byte(m.GetSignature())
		if i := len(s) / 2; s[i] == '0' {
			s[i] = '1'
		} else {
			s[i] = '0'
		}
		return withSig(typ, body, string(s))
	case "another type":
		return g.Sign(fcrmessages.CreateFCRMessage(fcrmessages.ClientEstablishmentResponseType, body), nil)
	case "an empty body":
		return g.Sign(fcrmessages.CreateFCRMessage(typ, []byte("{}")), nil)
	case "no JSON":
		return g.Sign(fcrmessages.CreateFCRMessage(typ, []byte("?")), nil)
	case "another body under the same signature":
		o, err := build(wrong, nonce)
		vnode.Must(err)
		if string(o.GetMessageBody()) == string(body) {
			o, err = build(c, nonce+1)
			vnode.Must(err)
		}
		return withSig(typ, body, g.Sign(o, nil).GetSignature())
	}
	panic("harness: envelope " + kind)
}

func withSig(typ int32, body []byte, sig string) *msg {
	b, err := fcrmessages.CreateFCRMessage(typ, body).FCRMsgToBytes()
	vnode.Must(err)
	s := string(b)
	if !strings.Contains(s, `"message_signature":""`) {
		panic("harness: no signature field")
	}
	m, err := fcrmessages.FCRMsgFromBytes([]byte(strings.Replace(s, `"message_signature":""`, `"message_signature":"`+sig+`"`, 1)))
	vnode.Must(err)
	return m
}

// next is a case of this shard.
func next() bool {
	seq++
	if !t.Mine(seq) || t.Over() {
		if t.Over() {
			t.NotExhaustive("time")
		}
		return false
	}
	if count%150 == 0 {
		w.Client(1 << 40)
		w.Use(w.G[0], w.G[1], w.G[2])
	}
	count++
	t.Eval()
	w.Asked = nil
	return true
}

func main() {
	vh.Main(func(tt *vh.T) {
		t = tt
		w = vclient.New(t)
		w.StartMgr()
		entry = w.G[0]
		t.Assume("signatures cannot be forged without the key")
		standard()
		standard2()
		dht()
		dht2()
		acks()
	})
}

func viol(mode, key, detail string, r interface{}) { t.Violate(mode+":"+key, detail, r) }

// try calls the client; a panic is a violation.
func try(mode string, r interface{}, f func()) bool { return t.Try(mode+":panic", r, f) }

// lists of kinds of offers.
func lists(n int) [][]string {
	out := [][]string{{}}
	for from := 0; n > 0; n-- {
		to := len(out)
		for _, l := range out[from:to] {
			for _, k := range vclient.SubKinds {
				out = append(out, append(append([]string{}, l...), k))
			}
		}
		from = to
	}
	return out
}

type stdCase struct {
	Mode, Envelope string
	Offers         []string
}

func standard() {
	one := func(e string, kinds []string) {
		if !next() {
			return
		}
		r := stdCase{"FindOffersStandardDiscovery", e, kinds}
		t.Case(func() string { return fmt.Sprint(r) })
		w.On[vclient.Addr(entry)] = func(m *msg) (*msg, error) {
			c, nonce, _, _, _, err := fcrmessages.DecodeClientStandardDiscoverRequest(m)
			if err != nil || c.ToString() != asked.ToString() {
				viol("standard", "request", fmt.Sprintf("the request is not for the CID: %v %v", c, err), r)
				return nil, errors.New("refused")
			}
			if e == "refused" {
				return nil, errors.New("refused")
			}
			return env(e, entry, c, nonce, func(c *cid.ContentID, nonce int64) (*msg, error) {
				return fcrmessages.EncodeClientStandardDiscoverResponse(c, nonce, len(kinds) > 0, offers(kinds, 0), make([]bool, len(kinds)))
			}), nil
		}
		var got []sub
		var err error
		if !try("standard", r, func() { got, err = w.C.FindOffersStandardDiscovery(asked, entry.ID) }) {
			return
		}
		want := good(kinds, 0)
		if e != "good" {
			want = nil
		}
		if !same(texts(got), want) {
			viol("standard", "offers", fmt.Sprintf("reply %q with offers %q: %d offers returned, %d are good (error %v)", e, kinds, len(got), len(want), err), r)
		} else if e == "good" && err != nil {
			viol("standard", "error", fmt.Sprintf("a genuine reply with offers %q gives an error: %v", kinds, err), r)
		}
		t.Outcome(fmt.Sprintf("standard %s, %d of %d accepted", e, len(got), len(kinds)))
		t.Distinct(fmt.Sprint("s", e, kinds))
	}
	for _, l := range lists(t.Pick(3, 4)) {
		one("good", l)
	}
	for _, e := range append([]string{"refused"}, Envs[1:]...) {
		for _, l := range [][]string{{}, {"good group"}, {"good group", "good single"}, {"unsigned"}} {
			one(e, l)
		}
	}
}

type std2Case struct {
	Mode, First, Second string
	Digests             int
	Offers              []string
	Limit               int
}

func standard2() {
	one := func(e1, e2 string, digests int, kinds []string, limit int) {
		if !next() {
			return
		}
		r := std2Case{"FindOffersStandardDiscoveryV2", e1, e2, digests, kinds, limit}
		t.Case(func() string { return fmt.Sprint(r) })
		listed := []string{}
		for i := 0; i < digests; i++ {
			listed = append(listed, fmt.Sprintf("%043d=", i+1))
		}
		ask := digests
		if limit < ask {
			ask = limit
		}
		second := 0
		w.On[vclient.Addr(entry)] = func(m *msg) (*msg, error) {
			if m.GetMessageType() == fcrmessages.ClientStandardDiscoverRequestV2Type {
				c, nonce, _, _, _, err := fcrmessages.DecodeClientStandardDiscoverRequestV2(m)
				if err != nil || c.ToString() != asked.ToString() {
					viol("standard2", "request", fmt.Sprintf("the request is not for the CID: %v %v", c, err), r)
				}
				if e1 == "refused" {
					return nil, errors.New("refused")
				}
				return env(e1, entry, c, nonce, func(c *cid.ContentID, nonce int64) (*msg, error) {
					return fcrmessages.EncodeClientStandardDiscoverResponseV2(c, nonce, digests > 0, listed, make([]bool, digests), false, "")
				}), nil
			}
			c, nonce, _, ds, _, _, err := fcrmessages.DecodeClientStandardDiscoverOfferRequest(m)
			if err != nil || c.ToString() != asked.ToString() {
				viol("standard2", "second request", fmt.Sprintf("the second request is not for the CID: %v %v", c, err), r)
			}
			second++
			if e1 != "good" || len(ds) != ask || !within(ds, listed) {
				viol("standard2", "asked", fmt.Sprintf("digests %v asked for; first reply %q listed %d, limit %d", ds, e1, digests, limit), r)
			}
			if e2 == "refused" {
				return nil, errors.New("refused")
			}
			return env(e2, entry, c, nonce, func(c *cid.ContentID, nonce int64) (*msg, error) {
				return fcrmessages.EncodeClientStandardDiscoverOfferResponse(c, nonce, len(kinds) > 0, offers(kinds, 0), make([]bool, len(kinds)), e2 == "payment", "f01")
			}), nil
		}
		var got []sub
		var err error
		if !try("standard2", r, func() { got, err = w.C.FindOffersStandardDiscoveryV2(asked, entry.ID, limit) }) {
			return
		}
		want := []string{}
		if e1 == "good" && e2 == "good" && ask > 0 {
			want = good(kinds, 0)
		}
		n := len(want)
		if n > limit {
			n = limit
		}
		if n < 0 {
			n = 0
		}
		if !within(texts(got), want) || len(got) != n {
			viol("standard2", "offers", fmt.Sprintf("replies %q, %q listing %d with offers %q, limit %d: %d offers returned, %d expected (error %v)", e1, e2, digests, kinds, limit, len(got), n, err), r)
		} else if e1 == "good" && e2 == "good" && err != nil {
			viol("standard2", "error", fmt.Sprintf("genuine replies listing %d with offers %q, limit %d give an error: %v", digests, kinds, limit, err), r)
		}
		if e1 == "good" && ask > 0 && second != 1 {
			viol("standard2", "second", fmt.Sprintf("%d requests for offers; %d listed, limit %d", second, digests, limit), r)
		}
		t.Outcome(fmt.Sprintf("standard V2 %s/%s, %d of %d accepted, limit %d", e1, e2, len(got), len(kinds), limit))
		t.Distinct(fmt.Sprint("s2", r))
	}
	limits := []int{-1, 0, 1, 2, 3, 10}
	for _, l := range lists(t.Pick(1, 2)) {
		for _, lim := range limits {
			for d := 0; d <= 3; d++ {
				one("good", "good", d, l, lim)
			}
		}
	}
	for _, l := range lists(2) {
		if len(l) == 2 {
			one("good", "good", 2, l, 1)
			one("good", "good", 2, l, 2)
			one("good", "good", 3, append(l, "good other"), 2)
		}
	}
	ls := [][]string{{}, {"good group"}, {"unsigned"}, {"good group", "good single"}}
	for _, e := range append([]string{"refused"}, Envs[1:]...) {
		for _, l := range ls {
			for d := 0; d <= 2; d++ {
				one(e, "good", d, l, 2)
				if e != "another nonce" {
					one("good", e, d, l, 2)
				}
			}
		}
	}
	for _, l := range ls {
		for d := 0; d <= 2; d++ {
			one("good", "another nonce", d, l, 2)
		}
	}
	if t.Thorough() {
		for _, e1 := range append([]string{"refused"}, Envs...) {
			for _, e2 := range append([]string{"refused"}, Envs...) {
				for _, l := range ls {
					for _, lim := range limits {
						one(e1, e2, 2, l, lim)
					}
				}
			}
		}
	}
}

// A part is what one contacted gateway is said to have replied.
type part struct {
	By       string // who
	Envelope string
	Offers   []string
}

func who(n string) *vnode.Ident {
	switch n {
	case "G1":
		return w.G[1]
	case "G2":
		return w.G[2]
	case "entry":
		return w.G[0]
	case "incomplete":
		return w.Part
	case "odd key":
		return w.Odd
	case "unregistered":
		return w.None
	}
	panic("harness: " + n)
}

// known says whether a gateway is registered completely.
func known(g *vnode.Ident) bool { return g == w.G[0] || g == w.G[1] || g == w.G[2] }

type dhtCase struct {
	Mode, Envelope string
	Parts          []part
}

func dht() {
	one := func(e string, parts ...part) {
		if !next() {
			return
		}
		r := dhtCase{"FindOffersDHTDiscovery", e, parts}
		t.Case(func() string { return fmt.Sprint(r) })
		w.On[vclient.Addr(entry)] = func(m *msg) (*msg, error) {
			c, nonce, _, n, _, _, _, err := fcrmessages.DecodeClientDHTDiscoverRequest(m)
			if err != nil || c.ToString() != asked.ToString() || n != int64(len(parts)) {
				viol("dht", "request", fmt.Sprintf("the request is not as asked: %v %v %v", c, n, err), r)
			}
			if e == "refused" {
				return nil, errors.New("refused")
			}
			ids, ms := []nodeid.NodeID{}, []msg{}
			for i, p := range parts {
				g := who(p.By)
				ids = append(ids, *g.ID)
				ms = append(ms, *env(p.Envelope, g, c, nonce+100, func(c *cid.ContentID, nonce int64) (*msg, error) {
					return fcrmessages.EncodeGatewayDHTDiscoverResponse(c, nonce, len(p.Offers) > 0, offers(p.Offers, 10*i), make([]bool, len(p.Offers)))
				}))
			}
			un := []nodeid.NodeID{*w.None.ID}
			switch e {
			case "one reply missing":
				ms = ms[:len(ms)-1]
			case "one gateway missing":
				ids = ids[:len(ids)-1]
			}
			return env(strings.Replace(strings.Replace(strings.Replace(e, "one reply missing", "good", 1), "one gateway missing", "good", 1), "payment", "good", 1), entry, c, nonce, func(c *cid.ContentID, nonce int64) (*msg, error) {
				return fcrmessages.EncodeClientDHTDiscoverResponse(ids, ms, un, nonce, e == "payment", "f01")
			}), nil
		}
		var got map[string]*[]sub
		var err error
		if !try("dht", r, func() { got, err = w.C.FindOffersDHTDiscovery(asked, entry.ID, int64(len(parts))) }) {
			return
		}
		want := map[string][]string{}
		if e == "good" {
			for i, p := range parts {
				if g := who(p.By); (p.Envelope == "good" || p.Envelope == "another nonce") && known(g) {
					want[g.ID.ToString()] = append(want[g.ID.ToString()], good(p.Offers, 10*i)...)
				}
			}
		}
		check("dht", r, e, want, got, err)
		t.Outcome(fmt.Sprintf("dht %s, %d gateways", e, len(got)))
		t.Distinct(fmt.Sprint("d", r))
	}
	ls := [][]string{{}, {"good group"}, {"good single", "unsigned", "good other"}, {"other CID of the group"}}
	subs := append([]string{}, Envs...)
	for _, e1 := range subs {
		for _, e2 := range subs {
			for _, l1 := range ls {
				for _, l2 := range ls {
					one("good", part{"G1", e1, l1}, part{"G2", e2, l2})
				}
			}
		}
	}
	for _, e1 := range subs {
		for _, e2 := range subs {
			for _, e3 := range subs {
				if t.Thorough() || e3 == "good" || e2 == "good" {
					one("good", part{"G1", e1, ls[1]}, part{"G2", e2, ls[2]}, part{"entry", e3, ls[1]})
				}
			}
		}
	}
	for _, k := range lists(2) {
		one("good", part{"G1", "good", k})
		one("good", part{"G1", "good", k}, part{"G2", "good", []string{"good group"}})
		one("good", part{"G2", "good", []string{"good group"}}, part{"G1", "good", k})
	}
	for _, b := range []string{"incomplete", "odd key", "unregistered"} {
		for _, e1 := range []string{"good", "another gateway's key", "unsigned"} {
			for _, l := range ls {
				one("good", part{b, e1, l}, part{"G1", "good", []string{"good group"}})
				one("good", part{"G1", "good", []string{"good group"}}, part{b, e1, l})
			}
		}
	}
	one("good")
	for _, e := range append([]string{"refused", "one reply missing", "one gateway missing", "payment"}, Envs[1:]...) {
		if e == "another CID" {
			continue // this reply names no CID
		}
		for _, l := range ls {
			one(e, part{"G1", "good", l}, part{"G2", "good", ls[1]})
			one(e, part{"G1", "good", l})
		}
	}
}

// check compares what is returned with the offers to be accepted.
func check(mode string, r interface{}, e string, want map[string][]string, got map[string]*[]sub, err error) {
	for id, os := range got {
		if os == nil {
			continue
		}
		x := append([]string{}, want[id]...)
		sort.Strings(x)
		if !same(texts(*os), x) {
			viol(mode, "offers", fmt.Sprintf("%d offers returned as gateway %s's, %d expected (error %v)", len(*os), id, len(x), err), r)
			return
		}
	}
	for id, x := range want {
		if len(x) > 0 && (got[id] == nil || len(*got[id]) == 0) {
			viol(mode, "lost", fmt.Sprintf("the %d offers of gateway %s are not returned (error %v)", len(x), id, err), r)
			return
		}
	}
	if e == "good" && err != nil {
		viol(mode, "error", fmt.Sprintf("a genuine reply gives an error: %v", err), r)
	}
}

// A part2 is what one contacted gateway is said to have replied, twice.
type part2 struct {
	By     string
	First  string // envelope, "payment" or "absent"
	Lists  int    // digests listed
	Second string // envelope, "payment", "not found", "absent"
	Offers []string
}

type dht2Case struct {
	Mode, First, Second string
	Limit               int
	Parts               []part2
}

func dht2() {
	one := func(e1, e2 string, limit int, parts ...part2) {
		if !next() {
			return
		}
		r := dht2Case{"FindOffersDHTDiscoveryV2", e1, e2, limit, parts}
		t.Case(func() string { return fmt.Sprint(r) })
		// What is to be asked for: at most limit digests in all, of those whose list is genuine.
		listed := map[string][]string{}
		avail := 0
		for i, p := range parts {
			g := who(p.By)
			ds := []string{}
			for j := 0; j < p.Lists; j++ {
				ds = append(ds, fmt.Sprintf("%043d=", 100*(i+1)+j))
			}
			if e1 == "good" && (p.First == "good" || p.First == "another nonce") && known(g) && len(ds) > 0 {
				listed[g.Hex] = ds
				avail += len(ds)
			}
		}
		ask := avail
		if limit < ask {
			ask = limit
		}
		if ask < 0 {
			ask = 0
		}
		askedOf := map[string]int{}
		second := 0
		w.On[vclient.Addr(entry)] = func(m *msg) (*msg, error) {
			if m.GetMessageType() == fcrmessages.ClientDHTDiscoverRequestV2Type {
				c, nonce, _, n, _, _, _, err := fcrmessages.DecodeClientDHTDiscoverRequestV2(m)
				if err != nil || c.ToString() != asked.ToString() || n != int64(len(parts)) {
					viol("dht2", "request", fmt.Sprintf("the request is not as asked: %v %v %v", c, n, err), r)
				}
				if e1 == "refused" {
					return nil, errors.New("refused")
				}
				ids, ms := []nodeid.NodeID{}, []msg{}
				un := []nodeid.NodeID{*w.None.ID}
				for i, p := range parts {
					g := who(p.By)
					if p.First == "absent" {
						un = append(un, *g.ID)
						continue
					}
					ds := []string{}
					for j := 0; j < p.Lists; j++ {
						ds = append(ds, fmt.Sprintf("%043d=", 100*(i+1)+j))
					}
					ids = append(ids, *g.ID)
					ms = append(ms, *env(strings.Replace(p.First, "payment", "good", 1), g, c, nonce+100, func(c *cid.ContentID, nonce int64) (*msg, error) {
						return fcrmessages.EncodeGatewayDHTDiscoverResponseV2(c, nonce, len(ds) > 0, ds, make([]bool, len(ds)), p.First == "payment", "f01")
					}))
				}
				e := e1
				switch e1 {
				case "one reply missing":
					ms, e = ms[:len(ms)-1], "good"
				case "one gateway missing":
					ids, e = ids[:len(ids)-1], "good"
				}
				return env(e, entry, c, nonce, func(c *cid.ContentID, nonce int64) (*msg, error) {
					return fcrmessages.EncodeClientDHTDiscoverResponseV2(ids, ms, un, nonce, false, "")
				}), nil
			}
			c, nonce, dss, ids, _, _, err := fcrmessages.DecodeClientDHTDiscoverOfferRequest(m)
			if err != nil || c.ToString() != asked.ToString() || len(dss) != len(ids) {
				viol("dht2", "second request", fmt.Sprintf("the second request is for %v, %d gateways and %d lists of digests (%v)", c, len(ids), len(dss), err), r)
				return nil, errors.New("refused")
			}
			second++
			n := 0
			for i, id := range ids {
				if len(dss[i]) == 0 {
					continue
				}
				n += len(dss[i])
				askedOf[id.ToString()] += len(dss[i])
				if !within(dss[i], listed[id.ToString()]) {
					viol("dht2", "pairing", fmt.Sprintf("digests %v are asked of gateway %s, which listed %v", dss[i], id.ToString(), listed[id.ToString()]), r)
				}
			}
			if n != ask {
				viol("dht2", "number asked", fmt.Sprintf("%d offers asked for; %d listed, limit %d", n, avail, limit), r)
			}
			if e2 == "refused" {
				return nil, errors.New("refused")
			}
			rids, ms := []nodeid.NodeID{}, []msg{}
			for i, p := range parts {
				g := who(p.By)
				if p.Second == "absent" || (askedOf[g.Hex] == 0 && p.Second != "unasked") {
					continue
				}
				ks := p.Offers
				e := p.Second
				by := g
				switch e {
				case "not found":
					ks, e = nil, "good"
				case "payment", "unasked":
					e = "good"
				case "another gateway's reply":
					e, by = "good", w.G[1]
					if g == by {
						by = w.G[2]
					}
				}
				rids = append(rids, *g.ID)
				ms = append(ms, *env(e, by, c, nonce, func(c *cid.ContentID, nonce int64) (*msg, error) {
					return fcrmessages.EncodeGatewayDHTDiscoverOfferResponse(c, nonce, len(ks) > 0, offers(ks, 10*i), make([]bool, len(ks)), p.Second == "payment", "f01")
				}))
			}
			e := e2
			switch e2 {
			case "one reply missing":
				ms, e = ms[:len(ms)-1], "good"
			case "one gateway missing":
				rids, e = rids[:len(rids)-1], "good"
			case "payment":
				e = "good"
			}
			return env(e, entry, c, nonce, func(c *cid.ContentID, nonce int64) (*msg, error) {
				return fcrmessages.EncodeClientDHTDiscoverOfferResponse(c, nonce, rids, ms, e2 == "payment", "f01")
			}), nil
		}
		var got map[string]*[]sub
		var err error
		if !try("dht2", r, func() { got, err = w.C.FindOffersDHTDiscoveryV2(asked, entry.ID, int64(len(parts)), limit) }) {
			return
		}
		total := 0
		for _, os := range got {
			if os != nil {
				total += len(*os)
			}
		}
		t.Outcome(fmt.Sprintf("dht V2 %s/%s, %d gateways, %d offers, limit %d", e1, e2, len(got), total, limit))
		t.Distinct(fmt.Sprint("d2", r))
		if total > limit && total > 0 {
			viol("dht2", "limit", fmt.Sprintf("%d offers returned, limit %d", total, limit), r)
		}
		want := map[string][]string{}
		if e2 == "good" {
			for i, p := range parts {
				if g := who(p.By); (p.Second == "good" || p.Second == "unasked") && askedOf[g.Hex] > 0 {
					want[g.Hex] = good(p.Offers, 10*i)
				}
			}
		}
		for id, os := range got {
			if os == nil {
				continue
			}
			if !within(texts(*os), want[id]) {
				viol("dht2", "offers", fmt.Sprintf("an offer is returned as gateway %s's that is not one of its good ones", id), r)
				return
			}
		}
		for id, x := range want {
			n, m := 0, askedOf[id]
			if got[id] != nil {
				n = len(*got[id])
			}
			if len(x) < m {
				m = len(x)
			}
			if n < m {
				viol("dht2", "lost", fmt.Sprintf("%d offers of gateway %s returned; %d were asked for and %d good ones came (error %v)", n, id, askedOf[id], len(x), err), r)
				return
			}
		}
		if e1 == "good" && (e2 == "good" || second == 0) && err != nil {
			viol("dht2", "error", fmt.Sprintf("genuine replies give an error: %v", err), r)
		}
		if ask > 0 && second != 1 || ask == 0 && second != 0 {
			viol("dht2", "second", fmt.Sprintf("%d requests for offers; %d listed, limit %d (error %v)", second, avail, limit, err), r)
		}
	}
	limits := []int{-1, 0, 1, 2, 3, 4, 10}
	two := []string{"good group", "good single"}
	g2 := func(n int) []string { return []string{"good group", "good single", "good other"}[:n] }
	// What the first replies may be.
	type fst struct {
		e string
		n int
	}
	first := []fst{{"good", 0}, {"good", 1}, {"good", 2}, {"good", 3}, {"absent", 0}, {"payment", 2}, {"payment", 0}}
	for _, e := range Envs[1:] {
		first = append(first, fst{e, 2})
	}
	for _, a := range first {
		for _, b := range first {
			for _, l := range limits {
				one("good", "good", l, part2{"G1", a.e, a.n, "good", g2(a.n)}, part2{"G2", b.e, b.n, "good", g2(b.n)})
			}
		}
	}
	three := []fst{{"good", 0}, {"good", 1}, {"good", 2}, {"absent", 0}, {"payment", 1}, {"wrong key", 1}, {"another CID", 2}}
	if t.Thorough() {
		three = first
	}
	for _, a := range three {
		for _, b := range three {
			for _, c := range three {
				for l := 1; l <= t.Pick(4, 7); l++ {
					one("good", "good", l, part2{"G1", a.e, a.n, "good", g2(a.n)}, part2{"G2", b.e, b.n, "good", g2(b.n)}, part2{"entry", c.e, c.n, "good", g2(c.n)})
				}
			}
		}
	}
	for _, x := range []string{"incomplete", "odd key", "unregistered"} {
		for _, e := range []string{"good", "another gateway's key", "unsigned"} {
			for _, l := range limits {
				for n := 1; n <= 2; n++ {
					a, b, c := part2{"G1", "good", 1, "good", g2(1)}, part2{"G2", "good", n, "good", g2(n)}, part2{x, e, 2, "good", two}
					one("good", "good", l, a, b, c)
					one("good", "good", l, a, c, b)
					one("good", "good", l, c, a, b)
				}
			}
		}
	}
	// What the second replies may be.
	second := append([]string{"payment", "not found", "absent", "another gateway's reply", "unasked"}, Envs...)
	for _, a := range second {
		for _, b := range second {
			for _, l := range []int{1, 2, 3, 10} {
				for n := 1; n <= 2; n++ {
					one("good", "good", l, part2{"G1", "good", n, a, two}, part2{"G2", "good", n, b, two})
				}
			}
		}
	}
	some := []string{"good", "payment", "absent", "another gateway's reply", "wrong key", "another CID", "another nonce"}
	if t.Thorough() {
		some = second
	}
	for _, a := range some {
		for _, b := range some {
			for _, c := range some {
				for l := t.Pick(6, 1); l <= 6; l++ {
					one("good", "good", l, part2{"G1", "good", 2, a, two}, part2{"G2", "good", 2, b, two}, part2{"entry", "good", 2, c, two})
				}
			}
		}
	}
	for _, b := range second {
		for _, f := range []string{"payment", "wrong key", "absent"} {
			one("good", "good", 5, part2{"G1", "good", 2, "good", two}, part2{"G2", f, 2, b, two})
			one("good", "good", 5, part2{"G1", f, 2, b, two}, part2{"G2", "good", 2, "good", two})
			one("good", "good", 5, part2{"G1", f, 2, b, two}, part2{"G2", "good", 2, "wrong key", two})
		}
	}
	for _, k := range lists(2) {
		for l := 1; l <= 3; l++ {
			if len(k) < 2 || t.Thorough() || l == 2 {
				one("good", "good", l, part2{"G1", "good", 2, "good", k}, part2{"G2", "good", 1, "good", g2(1)})
				one("good", "good", l, part2{"G2", "good", 1, "good", g2(1)}, part2{"G1", "good", 2, "good", k})
			}
		}
	}
	one("good", "good", 2)
	for _, e := range append([]string{"refused", "one reply missing", "one gateway missing"}, Envs[1:]...) {
		for n := 0; n <= 2; n++ {
			for _, l := range []int{1, 4} {
				a, b := part2{"G1", "good", n, "good", g2(n)}, part2{"G2", "good", 1, "good", g2(1)}
				if e != "another CID" { // the first reply names no CID
					one(e, "good", l, a, b)
				}
				one("good", e, l, a, b)
				one("good", "payment", l, a, b)
			}
		}
	}
}

type ackCase struct{ Mode, Envelope, Gateway, Provider, Request, Ack string }

func acks() {
	sign := func(k *vnode.Ident, b []byte) string {
		s, err := fcrcrypto.SignMessage(k.Key, vnode.Ver, b)
		vnode.Must(err)
		return s
	}
	one := func(e, gw, pv, rk, ak string) {
		if !next() {
			return
		}
		r := ackCase{"FindDHTOfferAck", e, gw, pv, rk, ak}
		t.Case(func() string { return fmt.Sprint(r) })
		g, p := w.G[1], w.P[0]
		switch gw {
		case "incomplete":
			g = w.Part
		case "odd key":
			g = w.Odd
		case "unregistered":
			g = w.None
		}
		switch pv {
		case "incomplete":
			p = w.PartP
		case "odd key":
			p = w.OddP
		case "unregistered":
			p = w.NoneP
		}
		o, po := w.G[2], w.P[1]
		single := func(p *vnode.Ident, c *cid.ContentID) cidoffer.CIDOffer {
			return *p.Offer([]*cid.ContentID{c}, 5, vnode.Forever, 5)
		}
		raw := func(p *vnode.Ident, c *cid.ContentID, by *vnode.Ident) cidoffer.CIDOffer {
			x, err := cidoffer.NewCIDOffer(p.ID, []cid.ContentID{*c}, 6, vnode.Forever, 5)
			vnode.Must(err)
			if by != nil {
				vnode.Must(x.Sign(by.Key, vnode.Ver))
			}
			return *x
		}
		w.On[vclient.Addr(p)] = func(m *msg) (*msg, error) {
			c, id, err := fcrmessages.DecodeClientDHTOfferAckRequest(m)
			if err != nil || c.ToString() != asked.ToString() || id.ToString() != g.Hex {
				viol("ack", "request", fmt.Sprintf("the request is not as asked: %v %v %v", c, id, err), r)
			}
			os := []cidoffer.CIDOffer{single(p, asked)}
			pid, by := p, p
			switch rk {
			case "good":
			case "good second":
				os = []cidoffer.CIDOffer{single(p, wrong), single(p, asked)}
			case "good first":
				os = []cidoffer.CIDOffer{single(p, asked), single(p, wrong)}
			case "no offers":
				os = []cidoffer.CIDOffer{}
			case "another CID":
				os = []cidoffer.CIDOffer{single(p, wrong)}
			case "another provider's key":
				by = po
			case "gateway's key":
				by = g
			case "another provider's ID":
				pid = po
			case "another provider's offer":
				os = []cidoffer.CIDOffer{single(po, asked)}
			case "another provider's offer and one for another CID":
				os = []cidoffer.CIDOffer{single(p, wrong), single(po, asked)}
			case "offer by another's key":
				os = []cidoffer.CIDOffer{raw(p, asked, po)}
			case "unsigned offer":
				os = []cidoffer.CIDOffer{raw(p, asked, nil)}
			case "unsigned offer and one for another CID":
				os = []cidoffer.CIDOffer{single(p, wrong), raw(p, asked, nil)}
			case "group offer":
				os = []cidoffer.CIDOffer{*p.Offer([]*cid.ContentID{asked, wrong}, 5, vnode.Forever, 5)}
			}
			const nonce = 4242
			req, err := fcrmessages.EncodeProviderPublishDHTOfferRequest(pid.ID, nonce, os)
			vnode.Must(err)
			switch rk {
			case "unsigned":
			case "another type":
				req = p.Sign(fcrmessages.CreateFCRMessage(fcrmessages.ProviderPublishGroupOfferRequestType, req.GetMessageBody()), nil)
			case "empty body":
				req = p.Sign(fcrmessages.CreateFCRMessage(req.GetMessageType(), []byte("{}")), nil)
			case "no JSON":
				req = p.Sign(fcrmessages.CreateFCRMessage(req.GetMessageType(), []byte("?")), nil)
			case "offer without content":
				req = p.Sign(fcrmessages.CreateFCRMessage(req.GetMessageType(), []byte(`{"provider_id":"`+p.Hex+`","nonce":4242,"num_of_offers":1,"single_offers":[{}]}`)), nil)
			case "nothing":
				req = &msg{}
			default:
				by.Sign(req, nil)
			}
			an, ag, as := int64(nonce), g, sign(g, req.GetMessageBody())
			switch ak {
			case "another gateway's":
				ag, as = o, sign(o, req.GetMessageBody())
			case "another gateway's envelope":
				ag = o
			case "another gateway's signature":
				as = sign(o, req.GetMessageBody())
			case "another nonce":
				an++
			case "signature of another request":
				x, err := fcrmessages.EncodeProviderPublishDHTOfferRequest(p.ID, nonce+1, os)
				vnode.Must(err)
				as = sign(g, x.GetMessageBody())
			case "ack of another request":
				x, err := fcrmessages.EncodeProviderPublishDHTOfferRequest(p.ID, nonce+1, os)
				vnode.Must(err)
				as, an = sign(g, x.GetMessageBody()), nonce+1
			case "no signature":
				as = ""
			case "odd signature":
				as = "00000001zz"
			}
			ack, err := fcrmessages.EncodeProviderPublishDHTOfferResponse(an, as)
			vnode.Must(err)
			switch ak {
			case "unsigned":
			case "another type":
				ack = g.Sign(fcrmessages.CreateFCRMessage(fcrmessages.ProviderPublishGroupOfferResponseType, ack.GetMessageBody()), nil)
			case "empty body":
				ack = g.Sign(fcrmessages.CreateFCRMessage(ack.GetMessageType(), []byte("{}")), nil)
			case "no JSON":
				ack = g.Sign(fcrmessages.CreateFCRMessage(ack.GetMessageType(), []byte("?")), nil)
			case "nothing":
				ack = &msg{}
			default:
				ag.Sign(ack, nil)
			}
			rg := g
			found := true
			en := e
			switch e {
			case "refused":
				return nil, errors.New("refused")
			case "another gateway":
				rg, en = o, "good"
			case "not found":
				found, en = false, "good"
			case "wrong key", "another gateway's key":
			}
			return env(en, p, c, 0, func(c *cid.ContentID, n int64) (*msg, error) {
				if n != 0 { // this reply has no nonce: "another body" differs in being found
					found = !found
				}
				return fcrmessages.EncodeClientDHTOfferAckResponse(c, rg.ID, found, req, ack)
			}), nil
		}
		var got bool
		var err error
		if !try("ack", r, func() { got, err = w.C.FindDHTOfferAck(asked, g.ID, p.ID) }) {
			return
		}
		want := e == "good" && gw == "good" && pv == "good" && strings.HasPrefix(rk, "good") && ak == "good"
		switch {
		case got && !want:
			viol("ack", "accepted", fmt.Sprintf("reported as acknowledged: reply %q, gateway %q, provider %q, request %q, ack %q", e, gw, pv, rk, ak), r)
		case want && (!got || err != nil):
			viol("ack", "refused", fmt.Sprintf("a genuine acknowledgement is reported as %v, %v", got, err), r)
		case e == "not found" && pv == "good" && err != nil:
			viol("ack", "not found", fmt.Sprintf("an honest 'not found' is reported as the error %v", err), r)
		}
		t.Outcome(fmt.Sprintf("ack %v", got))
		t.Distinct(fmt.Sprint("a", r))
	}
	rks := []string{"good", "good second", "good first", "no offers", "another CID", "another provider's key", "gateway's key", "another provider's ID", "another provider's offer", "another provider's offer and one for another CID",
		"offer by another's key", "unsigned offer", "unsigned offer and one for another CID", "group offer", "unsigned", "another type", "empty body", "no JSON", "offer without content", "nothing"}
	aks := []string{"good", "another gateway's", "another gateway's envelope", "another gateway's signature", "another nonce", "signature of another request", "ack of another request", "no signature", "odd signature",
		"unsigned", "another type", "empty body", "no JSON", "nothing"}
	es := []string{"good", "refused", "another gateway", "not found"}
	for _, e := range Envs[1:] {
		if e != "another nonce" {
			es = append(es, e)
		}
	}
	parties := []string{"good", "incomplete", "odd key", "unregistered"}
	for _, rk := range rks {
		for _, ak := range aks {
			for _, e := range es {
				if e == "good" || rk == "good" && ak == "good" || t.Thorough() {
					one(e, "good", "good", rk, ak)
				}
			}
		}
	}
	for _, e := range es {
		for _, a := range parties {
			for _, b := range parties {
				one(e, a, b, "good", "good")
				one(e, a, b, "another CID", "good")
				one(e, a, b, "good", "another gateway's")
			}
		}
	}
}
