//go:build go1.21

package nodechecks

import (
	"fmt"
	"sort"
	"strings"
	"time"

	"github.com/ConsenSys/fc-retrieval/common/pkg/cid"
	"github.com/ConsenSys/fc-retrieval/common/pkg/cidoffer"
	"github.com/ConsenSys/fc-retrieval/common/pkg/fcrmessages"
	"github.com/ConsenSys/fc-retrieval/common/pkg/nodeid"

	"github.com/ConsenSys/fc-retrieval/common/verif/vh"
	"github.com/ConsenSys/fc-retrieval/common/verif/vnode"
)

func init() { checks["c09"] = c09 }

// paid is one kind of paid request.
type paid struct {
	name string
	p2p  bool
	// price per item, and the number of items asked for
	unit int64
	// ask builds the request
	ask func(w *w09, q *req, ch, v string) *fcrmessages.FCRMessage
	// read takes an answer apart
	read func(w *w09, q *req, m *fcrmessages.FCRMessage) answer
}

type answer struct {
	err      error // not an answer to this request
	short    bool  // says that payment is needed
	found    bool
	hasFound bool
	items    []string // what it gives
	content  int      // number of pieces of content of any sort
}

// req is one request.
type req struct {
	kind    int
	cid     int   // which CID
	digests []int // which offers are asked for by digest
	numDHT  int64
	pay     int // index in payNames
	nonce   int64
}

var payNames = []string{"exact", "less", "more", "nothing", "forged", "garbage", "replayed", "other-channel", "one-item"}

type w09 struct {
	*Node
	pv     *vnode.Ident
	cids   []*cid.ContentID
	offers []*cidoffer.CIDOffer // what was published; nil is one never published
	names  []string
	live   []bool
	peers  []*vnode.Peer
	payer  *vnode.Payer
	other  *vnode.Payer
	last   string
	asker  *vnode.Ident
	kinds  []paid
}

func (w *w09) digest(i int) string {
	switch w.names[i] {
	case "malformed":
		return "xyz"
	case "blank":
		return ""
	}
	return Digest(w.offers[i])
}

// count of items paid for
func (w *w09) items(q *req) int64 {
	switch q.kind {
	case 0, 4:
		return 1
	case 2:
		return q.numDHT
	case 3:
		return int64(len(q.digests)) * q.numDHT
	}
	return int64(len(q.digests))
}

// want is what the store has for a discovery of the CID.
func (w *w09) want(c int) []string {
	r := []string{}
	for i, o := range w.offers {
		if w.live[i] && Covers(o, w.cids[c]) {
			r = append(r, Digest(o))
		}
	}
	sort.Strings(r)
	return r
}

// wantSubs is what the store has for digests, as a set.
func (w *w09) wantSubs(q *req) []string {
	set := map[string]bool{}
	for _, i := range q.digests {
		if w.live[i] && Covers(w.offers[i], w.cids[q.cid]) {
			set[SubKeyOf(w.offers[i], w.cids[q.cid])] = true
		}
	}
	r := []string{}
	for k := range set {
		r = append(r, k)
	}
	sort.Strings(r)
	return r
}

func (w *w09) subs(l []cidoffer.SubCIDOffer, c int) (r []string, err error) {
	for i := range l {
		s := &l[i]
		if s.GetProviderID() == nil || s.GetSubCID() == nil || s.GetMerkleProof() == nil {
			return nil, fmt.Errorf("sub-offer %d is empty", i)
		}
		if s.GetSubCID().ToString() != w.cids[c].ToString() {
			return nil, fmt.Errorf("sub-offer %d is for another CID", i)
		}
		if s.Verify(w.pv.PubKey) != nil || s.VerifyMerkleProof() != nil {
			return nil, fmt.Errorf("sub-offer %d does not verify", i)
		}
		r = append(r, SubKey(s))
	}
	return r, nil
}

func (w *w09) setKinds() {
	same := func(q *req, c *cid.ContentID, n int64) error {
		if c == nil || c.ToString() != w.cids[q.cid].ToString() {
			return fmt.Errorf("it names another CID")
		}
		if n != q.nonce {
			return fmt.Errorf("it has nonce %d, not %d", n, q.nonce)
		}
		return nil
	}
	digs := func(q *req) []string {
		r := []string{}
		for _, i := range q.digests {
			r = append(r, w.digest(i))
		}
		return r
	}
	disc := func(q *req, c *cid.ContentID, n int64, found bool, ds []string, fund []bool, short bool, err error) answer {
		if err == nil {
			err = same(q, c, n)
		}
		if err == nil && !short && len(fund) != len(ds) {
			err = fmt.Errorf("%d funding marks for %d digests", len(fund), len(ds))
		}
		sort.Strings(ds)
		return answer{err, short, found, true, ds, len(ds)}
	}
	off := func(q *req, c *cid.ContentID, n int64, found bool, l []cidoffer.SubCIDOffer, fund []bool, short bool, err error) answer {
		if err == nil {
			err = same(q, c, n)
		}
		if err == nil && !short && len(fund) != len(l) {
			err = fmt.Errorf("%d funding marks for %d offers", len(fund), len(l))
		}
		var s []string
		if err == nil {
			s, err = w.subs(l, q.cid)
		}
		set := map[string]int{}
		for _, x := range s {
			set[x]++
		}
		u := []string{}
		for x, k := range set {
			u = append(u, x)
			asked := 0
			for _, i := range q.digests {
				if w.live[i] && SubKeyOf(w.offers[i], w.cids[q.cid]) == x {
					asked++
				}
			}
			if k > asked && err == nil {
				err = fmt.Errorf("an offer asked for %d times is there %d times", asked, k)
			}
		}
		sort.Strings(u)
		return answer{err, short, found, true, u, len(l)}
	}
	w.kinds = []paid{
		{"client discovery", false, SearchPrice,
			func(w *w09, q *req, ch, v string) *fcrmessages.FCRMessage {
				m, err := fcrmessages.EncodeClientStandardDiscoverRequestV2(w.cids[q.cid], q.nonce, TTL(), ch, v)
				return w.asker.Sign(m, err)
			},
			func(w *w09, q *req, m *fcrmessages.FCRMessage) answer {
				c, n, f, ds, fund, short, _, err := fcrmessages.DecodeClientStandardDiscoverResponseV2(m)
				return disc(q, c, n, f, ds, fund, short, err)
			}},
		{"client offers", false, OfferPrice,
			func(w *w09, q *req, ch, v string) *fcrmessages.FCRMessage {
				m, err := fcrmessages.EncodeClientStandardDiscoverOfferRequest(w.cids[q.cid], q.nonce, TTL(), digs(q), ch, v)
				return w.asker.Sign(m, err)
			},
			func(w *w09, q *req, m *fcrmessages.FCRMessage) answer {
				c, n, f, l, fund, short, _, err := fcrmessages.DecodeClientStandardDiscoverOfferResponse(m)
				return off(q, c, n, f, l, fund, short, err)
			}},
		{"client DHT discovery", false, SearchPrice,
			func(w *w09, q *req, ch, v string) *fcrmessages.FCRMessage {
				m, err := fcrmessages.EncodeClientDHTDiscoverRequestV2(w.cids[q.cid], q.nonce, TTL(), q.numDHT, false, ch, v)
				return w.asker.Sign(m, err)
			},
			func(w *w09, q *req, m *fcrmessages.FCRMessage) answer {
				cont, rs, un, n, short, _, err := fcrmessages.DecodeClientDHTDiscoverResponseV2(m)
				if err == nil && n != q.nonce {
					err = fmt.Errorf("it has nonce %d, not %d", n, q.nonce)
				}
				if err == nil && len(cont) != len(rs) {
					err = fmt.Errorf("%d gateways and %d answers", len(cont), len(rs))
				}
				r := []string{}
				for i := range cont {
					r = append(r, cont[i].ToString())
				}
				for i := range un {
					r = append(r, "not reached: "+un[i].ToString())
				}
				sort.Strings(r)
				return answer{err, short, false, false, r, len(cont) + len(rs)}
			}},
		{"client DHT offers", false, OfferPrice,
			func(w *w09, q *req, ch, v string) *fcrmessages.FCRMessage {
				ids, ds := []nodeid.NodeID{}, [][]string{}
				for i := int64(0); i < q.numDHT; i++ {
					ids = append(ids, *w.peers[i].ID)
					ds = append(ds, digs(q))
				}
				m, err := fcrmessages.EncodeClientDHTDiscoverOfferRequest(w.cids[q.cid], q.nonce, ds, ids, ch, v)
				return w.asker.Sign(m, err)
			},
			func(w *w09, q *req, m *fcrmessages.FCRMessage) answer {
				c, n, ids, rs, short, _, err := fcrmessages.DecodeClientDHTDiscoverOfferResponse(m)
				if err == nil {
					err = same(q, c, n)
				}
				if err == nil && len(ids) != len(rs) {
					err = fmt.Errorf("%d gateways and %d answers", len(ids), len(rs))
				}
				r := []string{}
				for i := range ids {
					r = append(r, ids[i].ToString())
				}
				sort.Strings(r)
				return answer{err, short, false, false, r, len(ids) + len(rs)}
			}},
		{"gateway discovery", true, SearchPrice,
			func(w *w09, q *req, ch, v string) *fcrmessages.FCRMessage {
				m, err := fcrmessages.EncodeGatewayDHTDiscoverRequestV2(w.peers[0].ID, w.cids[q.cid], q.nonce, TTL(), ch, v)
				return w.peers[0].Sign(m, err)
			},
			func(w *w09, q *req, m *fcrmessages.FCRMessage) answer {
				c, n, f, ds, fund, short, _, err := fcrmessages.DecodeGatewayDHTDiscoverResponseV2(m)
				return disc(q, c, n, f, ds, fund, short, err)
			}},
		{"gateway offers", true, OfferPrice,
			func(w *w09, q *req, ch, v string) *fcrmessages.FCRMessage {
				m, err := fcrmessages.EncodeGatewayDHTDiscoverOfferRequest(w.cids[q.cid], q.nonce, digs(q), ch, v)
				return w.peers[0].Sign(m, err)
			},
			func(w *w09, q *req, m *fcrmessages.FCRMessage) answer {
				c, n, f, l, fund, short, _, err := fcrmessages.DecodeGatewayDHTDiscoverOfferResponse(m)
				return off(q, c, n, f, l, fund, short, err)
			}},
	}
}

func (w *w09) expect(q *req) []string {
	switch q.kind {
	case 0, 4:
		return w.want(q.cid)
	case 1, 5:
		return w.wantSubs(q)
	case 3:
		r := []string{}
		for i := int64(0); i < q.numDHT; i++ {
			r = append(r, w.peers[i].ID.ToString())
		}
		sort.Strings(r)
		return r
	}
	n := int(q.numDHT)
	if n > len(w.peers) {
		n = len(w.peers)
	}
	if n < 0 {
		n = 0
	}
	l, c := append([]*vnode.Peer{}, w.peers...), w.cids[q.cid].ToString()
	dist := func(p *vnode.Peer) string { return ringDist(p.ID.ToString(), c) }
	sort.Slice(l, func(i, j int) bool { return dist(l[i]) < dist(l[j]) })
	r := []string{}
	for _, p := range l[:n] {
		r = append(r, p.ID.ToString())
	}
	sort.Strings(r)
	return r
}

func (w *w09) describe(q *req) string {
	d := []string{}
	for _, i := range q.digests {
		d = append(d, w.names[i])
	}
	return fmt.Sprintf("%s cid %d digests [%s] gateways %d pay %s", w.kinds[q.kind].name, q.cid, strings.Join(d, ","), q.numDHT, payNames[q.pay])
}

func (w *w09) do(q *req, trail string) {
	t := w.T
	k := w.kinds[q.kind]
	q.nonce = w.Nonce()
	price := k.unit * w.items(q)
	if price < 0 {
		price = 0
	}
	ch, v := w.payer.Ch.String(), ""
	worth := int64(0)
	switch payNames[q.pay] {
	case "exact":
		worth = price
	case "less":
		worth = price - 1
	case "more":
		worth = price + 5
	case "one-item":
		worth = k.unit
	}
	switch payNames[q.pay] {
	case "nothing":
		ch = ""
	case "forged":
		v = w.payer.Forged(price + 1)
	case "garbage":
		v = "!!garbage!!"
	case "replayed":
		v = w.last
	case "other-channel":
		v = w.other.Voucher(price + 1)
	default:
		if worth > 0 {
			v = w.payer.Voucher(worth)
			w.last = v
		} else if payNames[q.pay] != "exact" {
			return // nothing below the price to pay
		}
	}
	if price == 0 && worth == 0 && payNames[q.pay] == "exact" {
		// nothing to pay: a voucher of one unit, as a voucher of none is refused
		worth = 1
		v = w.payer.Voucher(1)
	}
	desc := trail + w.describe(q)
	t.Case(func() string { return desc })
	t.Eval()
	t.Transition()
	bad := func(what, detail string) {
		t.Violate("c09:"+k.name+":"+what, desc+": "+detail, desc)
	}
	m := k.ask(w, q, ch, v)
	var r *fcrmessages.FCRMessage
	raw := ""
	if k.p2p {
		x, err := w.G.Ask(vnode.Bytes(m))
		if err != nil {
			bad("no answer", fmt.Sprintf("the connection gave %v", err))
			return
		}
		r = x
		if x.GetMessageType() == fcrmessages.InvalidMessageResponseType {
			r = nil
		}
		raw = x.DumpMessage()
	} else {
		x := vnode.Send(w.Rest, m)
		raw = x.String()
		if x.Err != nil {
			bad("no answer", raw)
			return
		}
		if len(x.Docs) != 1 {
			bad("answers", fmt.Sprintf("%d replies instead of one: %s", len(x.Docs), raw))
			return
		}
		if x.Status == 500 && strings.Contains(strings.ToLower(string(x.Body)), "internal server error") && !strings.Contains(string(x.Body), ":\"Internal error") {
			bad("crash", "the handler crashed: "+raw)
			return
		}
		r = x.Msg()
	}
	a := answer{err: fmt.Errorf("no message"), short: true}
	if r != nil {
		if !w.Me.Signed(r) {
			bad("unsigned", "the reply is not signed by the gateway: "+raw)
			return
		}
		if a = k.read(w, q, r); a.err != nil {
			bad("reply", a.err.Error()+": "+raw)
			return
		}
	}
	want := w.expect(q)
	served := r != nil && !a.short
	if a.short && a.content > 0 {
		bad("unpaid content", "content comes with the demand for payment: "+raw)
		return
	}
	each := k.unit
	if q.kind == 3 {
		each *= int64(len(q.digests))
	}
	least := each * int64(len(a.items))
	if q.kind == 0 || q.kind == 4 {
		least = each
	}
	if served && worth < least {
		bad("served below the price", fmt.Sprintf("the voucher was worth %d and %d items of %d each were served: %s", worth, len(a.items), each, raw))
		return
	}
	if served && worth == 0 && len(want) == 0 && a.content > 0 {
		bad("served below the price", raw)
		return
	}
	// the request is paid in full
	if worth >= price && worth > 0 && (q.numDHT >= 0 || price > 0) && q.numDHT <= int64(len(w.peers)) {
		if !served {
			if q.kind == 2 && q.numDHT < 1 || q.kind == 3 && w.items(q) < 1 {
				return // nothing asked for: an error will do
			}
			bad("paid but not served", raw)
			return
		}
	}
	if served {
		if fmt.Sprint(a.items) != fmt.Sprint(want) {
			bad("content", fmt.Sprintf("served %v, should be %v: %s", a.items, want, raw))
		}
		if a.hasFound && a.found != (len(want) > 0) {
			bad("found", fmt.Sprintf("it says found=%v with %d there: %s", a.found, len(want), raw))
		}
		t.Count("served", 1)
	} else {
		t.Count("refused", 1)
	}
	t.Outcome(fmt.Sprintf("%s %s served=%v items=%d", k.name, payNames[q.pay], served, len(a.items)))
	t.Trace()
}

// expired: a request past its time to live gets no content, and its voucher stays good.
func (w *w09) expired() {
	t := w.T
	for _, kind := range []int{0, 1, 2, 4} {
		for c := range w.cids {
			q := &req{kind: kind, cid: c, digests: []int{0}, numDHT: 1, nonce: w.Nonce()}
			k := w.kinds[kind]
			v := w.payer.Voucher(k.unit)
			for _, ago := range []int64{-1 << 40, -1000, -1} {
				late = ago
				m := k.ask(w, q, w.payer.Ch.String(), v)
				late = 0
				desc := fmt.Sprintf("%s, %d past its time", w.describe(q), ago)
				t.Case(func() string { return desc })
				t.Eval()
				t.Transition()
				var r *fcrmessages.FCRMessage
				raw := ""
				if k.p2p {
					x, err := w.G.Ask(vnode.Bytes(m))
					if err != nil {
						continue // dropped
					}
					r, raw = x, x.DumpMessage()
				} else {
					x := vnode.Send(w.Rest, m)
					r, raw = x.Msg(), x.String()
				}
				if r != nil {
					if a := k.read(w, q, r); a.err == nil && a.content > 0 {
						t.Violate("c09:"+k.name+":expired", desc+": content is served: "+raw, desc)
					}
				}
				t.Trace()
			}
			m := k.ask(w, q, w.payer.Ch.String(), v)
			desc := w.describe(q) + ", in time, after expired requests with the same voucher"
			ok := false
			raw := ""
			if k.p2p {
				x, err := w.G.Ask(vnode.Bytes(m))
				if err == nil {
					a := k.read(w, q, x)
					ok, raw = a.err == nil && !a.short, x.DumpMessage()
				}
			} else {
				x := vnode.Send(w.Rest, m)
				raw = x.String()
				if mm := x.Msg(); mm != nil {
					a := k.read(w, q, mm)
					ok = a.err == nil && !a.short
				}
			}
			if !ok {
				t.Violate("c09:"+k.name+":voucher lost", desc+": the payment is gone: "+raw, desc)
			}
		}
	}
}

func c09(t *vh.T, main func()) {
	n := Start(t, main)
	w := &w09{Node: n}
	w.pv = vnode.NewIdent("provider", 2, "20")
	w.asker = vnode.NewIdent("client", 9, "90")
	n.Reg.Provider(w.pv, "127.0.0.1:1", "127.0.0.1:1")
	for i, lead := range []string{"10", "60", "c0"} {
		p := vnode.NewPeer(vnode.NewIdent(fmt.Sprint("peer", i), 3+i, lead))
		n.Reg.Gateway(p.Ident, p.Addr, "127.0.0.1:1", "127.0.0.1:1")
		w.peers = append(w.peers, p)
		p.Script(honest(p))
	}
	n.Init()
	w.payer = vnode.NewPayer(n.Chain, 30, n.Me.Wallet.Addr, 1<<60)
	w.other = vnode.NewPayer(n.Chain, 31, n.Me.Wallet.Addr, 1<<60)
	w.last = w.payer.Forged(1)
	// content: a CID nobody offers, one with one offer, one with two, one with an expired one,
	// and one with an expired and a live one
	k := []*cid.ContentID{vnode.CID("aa", 0), vnode.CID("10", 1), vnode.CID("70", 2), vnode.CID("f0", 3), vnode.CID("30", 4)}
	w.cids = k
	past := time.Now().Unix() - 1000
	type o struct {
		name string
		cids []*cid.ContentID
		exp  int64
		dht  bool
		pub  bool
	}
	for i, x := range []o{
		{"group", []*cid.ContentID{k[1], k[2], k[4]}, vnode.Forever, false, true},
		{"single", []*cid.ContentID{k[2]}, vnode.Forever, true, true},
		{"expired", []*cid.ContentID{k[3], k[4]}, past, false, true},
		{"elsewhere", []*cid.ContentID{vnode.CID("ee", 9), vnode.CID("ee", 10)}, vnode.Forever, false, true},
		{"unknown", []*cid.ContentID{k[1], k[2]}, vnode.Forever - 5, false, false},
	} {
		off := w.pv.Offer(x.cids, uint64(100+i), x.exp, 5)
		if x.pub {
			if !n.Publish(w.pv, x.dht, off) && x.exp > past {
				t.Violate("c09:setup", "publishing offer "+x.name+" failed", nil)
				return
			}
		}
		w.offers, w.names, w.live = append(w.offers, off), append(w.names, x.name), append(w.live, x.pub && x.exp > past)
	}
	w.names = append(w.names, "malformed", "blank")
	w.offers, w.live = append(w.offers, nil, nil), append(w.live, false, false)
	w.setKinds()
	t.State("published")

	// every request alone
	lists := [][]int{{}}
	base := []int{0, 1, 2, 3, 4, 5, 6}
	max := t.Pick(3, 3)
	for from, l := 0, 1; l <= max; l++ {
		to := len(lists)
		for _, p := range lists[from:to] {
			for _, b := range base {
				lists = append(lists, append(append([]int{}, p...), b))
			}
		}
		from = to
	}
	var all []*req
	for c := range w.cids {
		for p := range payNames {
			all = append(all, &req{kind: 0, cid: c, pay: p}, &req{kind: 4, cid: c, pay: p})
			for _, l := range lists {
				all = append(all, &req{kind: 1, cid: c, pay: p, digests: l}, &req{kind: 5, cid: c, pay: p, digests: l})
			}
			for _, num := range []int64{0, 1, 2, 3, 4, 5, -1, 1 << 40} {
				if num > 3 && payNames[p] != "one-item" && payNames[p] != "exact" && payNames[p] != "garbage" {
					continue
				}
				if num > 100 && payNames[p] == "exact" {
					continue
				}
				all = append(all, &req{kind: 2, cid: c, pay: p, numDHT: num})
			}
			for num := int64(0); num <= 3; num++ {
				for _, l := range [][]int{{}, {0}, {0, 1}, {4}, {5, 0, 1}} {
					all = append(all, &req{kind: 3, cid: c, pay: p, numDHT: num, digests: l})
				}
			}
		}
	}
	for i, q := range all {
		if t.Over() {
			t.NotExhaustive("time")
			return
		}
		if t.Mine(i) {
			w.do(q, "")
		}
	}
	t.Note("single requests", len(all))
	if t.Shard == 0 {
		w.expired()
	}
	// every sequence of a reduced alphabet: what was served before changes neither price nor content
	var alpha []*req
	for _, p := range []int{0, 1} {
		alpha = append(alpha,
			&req{kind: 0, cid: 2, pay: p}, &req{kind: 1, cid: 2, digests: []int{0, 1}, pay: p}, &req{kind: 1, cid: 2, digests: []int{0, 4, 1}, pay: p},
			&req{kind: 2, cid: 2, numDHT: 2, pay: p}, &req{kind: 3, cid: 2, numDHT: 2, digests: []int{0, 1}, pay: p},
			&req{kind: 4, cid: 2, pay: p}, &req{kind: 5, cid: 2, digests: []int{0, 1}, pay: p}, &req{kind: 5, cid: 2, digests: []int{}, pay: p})
	}
	alpha = append(alpha, &req{kind: 0, cid: 0, pay: 6}, &req{kind: 5, cid: 1, digests: []int{4}, pay: 4})
	depth := t.Pick(3, 4)
	idx := 0
	var seq func(s []int)
	seq = func(s []int) {
		if t.Over() {
			t.NotExhaustive("time")
			return
		}
		if len(s) == depth {
			idx++
			if !t.Mine(idx) {
				return
			}
			trail := ""
			for _, i := range s {
				q := *alpha[i]
				w.do(&q, trail)
				trail += "after " + w.describe(&q) + "; "
			}
			t.State(fmt.Sprint(s))
			return
		}
		for i := range alpha {
			seq(append(s, i))
		}
	}
	seq(nil)
	t.Note("request sequences", fmt.Sprintf("%d of %d requests to depth %d", idx, len(alpha), depth))
	t.Sample(w.describe(all[7]))
	t.Sample(w.describe(all[len(all)/2]))
}
