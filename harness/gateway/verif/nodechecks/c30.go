//go:build go1.21

package nodechecks

import (
	"bytes"
	"fmt"
	"sort"
	"strings"

	"github.com/ConsenSys/fc-retrieval/common/pkg/cid"
	"github.com/ConsenSys/fc-retrieval/common/pkg/fcrcrypto"
	"github.com/ConsenSys/fc-retrieval/common/pkg/fcrmessages"
	"github.com/ConsenSys/fc-retrieval/common/pkg/nodeid"
	"github.com/ConsenSys/fc-retrieval/common/pkg/register"

	"github.com/ConsenSys/fc-retrieval/common/verif/vh"
	"github.com/ConsenSys/fc-retrieval/common/verif/vnode"
)

func init() { checks["c30"] = c30 }

// What a peer may do with a request. The first three are answers to report as they are.
var acts = []string{"found", "not found", "payment required", "wrong key", "unsigned", "altered", "wrong nonce", "wrong CID", "wrong kind", "refusal", "garbage", "hang up", "other kind's answer", "empty frame", "down", "silent"}

type w30 struct {
	*Node
	peers []*vnode.Peer
	odd   *vnode.Ident // registered with a key that cannot be read
	payer *vnode.Payer
	asker *vnode.Ident
	sent  map[int]*fcrmessages.FCRMessage // what each peer answered last
}

func (w *w30) reply(i int, act string, m *fcrmessages.FCRMessage) []byte {
	p := w.peers[i]
	t := m.GetMessageType()
	var c *cid.ContentID
	var n int64
	var ds []string
	var err error
	switch t {
	case fcrmessages.GatewayDHTDiscoverRequestType:
		_, c, n, _, _, _, err = fcrmessages.DecodeGatewayDHTDiscoverRequest(m)
	case fcrmessages.GatewayDHTDiscoverRequestV2Type:
		_, c, n, _, _, _, err = fcrmessages.DecodeGatewayDHTDiscoverRequestV2(m)
	case fcrmessages.GatewayDHTDiscoverOfferRequestType:
		c, n, ds, _, _, err = fcrmessages.DecodeGatewayDHTDiscoverOfferRequest(m)
	default:
		return nil
	}
	vnode.Must(err)
	if !w.Me.Signed(m) {
		w.T.Violate("c30:request", "the gateway asks without signing: "+m.DumpMessage(), nil)
	}
	mk := func(c *cid.ContentID, n int64, found, pay bool) *fcrmessages.FCRMessage {
		off := w.peers[i].Offer([]*cid.ContentID{c}, 5, vnode.Forever, 1)
		sub, err := off.GenerateSubCIDOffer(c)
		vnode.Must(err)
		_ = ds
		var r *fcrmessages.FCRMessage
		switch {
		case t == fcrmessages.GatewayDHTDiscoverRequestType && found:
			r, err = fcrmessages.EncodeGatewayDHTDiscoverResponse(c, n, true, subs(sub), []bool{false})
		case t == fcrmessages.GatewayDHTDiscoverRequestType:
			r, err = fcrmessages.EncodeGatewayDHTDiscoverResponse(c, n, false, nil, nil)
		case t == fcrmessages.GatewayDHTDiscoverRequestV2Type && found:
			r, err = fcrmessages.EncodeGatewayDHTDiscoverResponseV2(c, n, true, []string{Digest(off)}, []bool{false}, pay, "")
		case t == fcrmessages.GatewayDHTDiscoverRequestV2Type:
			r, err = fcrmessages.EncodeGatewayDHTDiscoverResponseV2(c, n, false, nil, nil, pay, "x")
		case found:
			r, err = fcrmessages.EncodeGatewayDHTDiscoverOfferResponse(c, n, true, subs(sub), []bool{false}, pay, "")
		default:
			r, err = fcrmessages.EncodeGatewayDHTDiscoverOfferResponse(c, n, false, nil, nil, pay, "x")
		}
		vnode.Must(err)
		return r
	}
	ok := func(r *fcrmessages.FCRMessage) []byte {
		p.Sign(r, nil)
		w.sent[i] = r
		return vnode.Bytes(r)
	}
	switch act {
	case "found":
		return ok(mk(c, n, true, false))
	case "not found":
		return ok(mk(c, n, false, false))
	case "payment required":
		return ok(mk(c, n, false, true))
	case "wrong key":
		r := mk(c, n, true, false)
		vnode.Must(r.Sign(w.peers[(i+1)%len(w.peers)].Key, vnode.Ver))
		return vnode.Bytes(r)
	case "unsigned":
		return vnode.Bytes(mk(c, n, true, false))
	case "altered":
		good := mk(c, n, false, false)
		p.Sign(good, nil)
		r := mk(c, n, true, false)
		b := vnode.Bytes(r)
		// the signature of another answer
		sig := field(vnode.Bytes(good), "signature")
		return setField(b, "signature", sig)
	case "wrong nonce":
		return vnode.Bytes(p.Sign(mk(c, n+1, true, false), nil))
	case "wrong CID":
		return vnode.Bytes(p.Sign(mk(vnode.CID("99", 99), n, true, false), nil))
	case "wrong kind":
		r, err := fcrmessages.EncodeGatewayListDHTOfferResponse(nil)
		return vnode.Bytes(p.Sign(r, err))
	case "other kind's answer":
		if t == fcrmessages.GatewayDHTDiscoverRequestV2Type {
			t = fcrmessages.GatewayDHTDiscoverRequestType
		} else {
			t = fcrmessages.GatewayDHTDiscoverRequestV2Type
		}
		return vnode.Bytes(p.Sign(mk(c, n, true, false), nil))
	case "refusal":
		r, err := fcrmessages.EncodeInvalidMessageResponse()
		return vnode.Bytes(p.Sign(r, err))
	case "garbage":
		return []byte("{\"message_type\":")
	case "empty frame":
		return []byte{}
	case "silent":
		return []byte{}
	}
	return nil
}

func (w *w30) order(c *cid.ContentID) []int {
	r := []int{}
	for i := range w.peers {
		r = append(r, i)
	}
	sort.Slice(r, func(a, b int) bool {
		return ringDist(w.peers[r[a]].Hex, c.ToString()) < ringDist(w.peers[r[b]].Hex, c.ToString())
	})
	return r
}

var kinds30 = []string{"discovery", "paid discovery", "offers"}

// do asks with the nearest peers behaving as given; for offers the targets are those peers.
func (w *w30) do(kind int, c *cid.ContentID, num int, behave []string, trail string, strict bool) {
	t := w.T
	ord := w.order(c)
	if num < len(ord) {
		ord = ord[:num]
	}
	w.sent = map[int]*fcrmessages.FCRMessage{}
	desc := fmt.Sprintf("%s%s of %d gateways for %s…, nearest behave [%s]", trail, kinds30[kind], num, c.ToString()[:4], strings.Join(behave, ", "))
	t.Case(func() string { return desc })
	t.Eval()
	t.Transition()
	key := "c30:" + kinds30[kind]
	bad := func(what, d string) { t.Violate(key+":"+what, desc+": "+d, desc) }
	act := map[int]string{}
	for i := range w.peers {
		act[i] = "found"
		for k, j := range ord {
			if i == j && k < len(behave) {
				act[i] = behave[k]
			}
		}
		i := i
		p := w.peers[i]
		switch act[i] {
		case "empty frame":
			p.ScriptRaw(func(m *fcrmessages.FCRMessage) []byte { w.reply(i, "silent", m); return vnode.Frame(nil) })
		case "twice":
			p.ScriptRaw(func(m *fcrmessages.FCRMessage) []byte {
				b := w.reply(i, "found", m)
				return append(vnode.Frame(b), vnode.Frame(b)...)
			})
		default:
			p.Script(func(m *fcrmessages.FCRMessage) []byte { return w.reply(i, act[i], m) })
		}
		p.Down(act[i] == "down")
	}
	nonce := w.Nonce()
	var m *fcrmessages.FCRMessage
	var err error
	ids, digs := []nodeid.NodeID{}, [][]string{}
	switch kind {
	case 0:
		m, err = fcrmessages.EncodeClientDHTDiscoverRequest(c, nonce, TTL(), int64(num), false, "", "")
	case 1:
		m, err = fcrmessages.EncodeClientDHTDiscoverRequestV2(c, nonce, TTL(), int64(num), false, w.payer.Ch.String(), w.payer.Voucher(int64(SearchPrice*num+1)))
	case 2:
		for _, i := range ord {
			ids = append(ids, *w.peers[i].ID)
			digs = append(digs, []string{strings.Repeat("ab", 32)})
		}
		m, err = fcrmessages.EncodeClientDHTDiscoverOfferRequest(c, nonce, digs, ids, w.payer.Ch.String(), w.payer.Voucher(int64(OfferPrice*num+1)))
	}
	r := vnode.Send(w.Rest, w.asker.Sign(m, err))
	rm := r.Msg()
	if !w.Me.Signed(rm) {
		bad("reply", "no signed answer: "+r.String())
		return
	}
	var cont []nodeid.NodeID
	var rs []fcrmessages.FCRMessage
	var un []nodeid.NodeID
	var n int64
	switch kind {
	case 0:
		cont, rs, un, n, _, _, err = fcrmessages.DecodeClientDHTDiscoverResponse(rm)
	case 1:
		cont, rs, un, n, _, _, err = fcrmessages.DecodeClientDHTDiscoverResponseV2(rm)
	case 2:
		var cc *cid.ContentID
		cc, n, cont, rs, _, _, err = fcrmessages.DecodeClientDHTDiscoverOfferResponse(rm)
		if err == nil && cc.ToString() != c.ToString() {
			err = fmt.Errorf("another CID")
		}
	}
	if err != nil || n != nonce {
		bad("reply", fmt.Sprintf("not an answer to this request (nonce %d for %d, %v): %s", n, nonce, err, r))
		return
	}
	if len(cont) != len(rs) {
		bad("reply", fmt.Sprintf("%d gateways and %d answers", len(cont), len(rs)))
		return
	}
	left := map[string]int{}
	for _, i := range ord {
		left[w.peers[i].Hex] = i
	}
	for k := range cont {
		h := cont[k].ToString()
		i, ok := left[h]
		if !ok {
			bad("reported", fmt.Sprintf("gateway %s is reported as contacted, once too often or without being among the nearest", h[:6]))
			return
		}
		delete(left, h)
		good := act[i] == "found" || act[i] == "not found" || act[i] == "payment required" || act[i] == "twice"
		if !good {
			bad("contacted:"+act[i], fmt.Sprintf("gateway %s is reported as contacted with %s", h[:6], rs[k].DumpMessage()))
			continue
		}
		if w.sent[i] == nil || !bytes.Equal(vnode.Bytes(&rs[k]), vnode.Bytes(w.sent[i])) {
			bad("answer", fmt.Sprintf("gateway %s is reported with an answer it did not give to this request: %s", h[:6], rs[k].DumpMessage()))
		}
	}
	for k := range un {
		h := un[k].ToString()
		i, ok := left[h]
		if !ok {
			bad("reported", fmt.Sprintf("gateway %s is reported as uncontactable, once too often or without being among the nearest", h[:6]))
			return
		}
		delete(left, h)
		if act[i] == "found" || act[i] == "not found" || act[i] == "payment required" || act[i] == "twice" {
			if strict {
				bad("uncontactable", fmt.Sprintf("gateway %s gave a good answer (%s) but is reported as uncontactable", h[:6], act[i]))
			}
		}
	}
	for h, i := range left {
		if kind == 2 && !(act[i] == "found" || act[i] == "not found" || act[i] == "payment required") {
			continue // the answer has no place for those not reached
		}
		if kind == 2 && !strict {
			continue
		}
		bad("missing", fmt.Sprintf("gateway %s (%s) is not reported", h[:6], act[i]))
	}
	for i, p := range w.peers {
		asked := false
		for _, j := range ord {
			asked = asked || i == j
		}
		if !asked && len(p.Got()) > 0 {
			bad("asked", fmt.Sprintf("gateway %s is asked though it is not among the nearest", p.Hex[:6]))
		}
		if asked && len(p.Got()) > 1 {
			bad("asked", fmt.Sprintf("gateway %s is asked %d times", p.Hex[:6], len(p.Got())))
		}
	}
	t.State(desc)
	t.Outcome(fmt.Sprintf("%s contacted %d, not %d", kinds30[kind], len(cont), len(un)))
	t.Trace()
}

// drop makes the peers lose their connections, and the gateway notice.
func (w *w30) drop() {
	for _, p := range w.peers {
		p.Down(true)
	}
	m, err := fcrmessages.EncodeClientDHTDiscoverRequest(vnode.CID("a0", 1), 1, TTL(), int64(len(w.peers)), false, "", "")
	vnode.Send(w.Rest, w.asker.Sign(m, err))
	for _, p := range w.peers {
		p.Down(false)
	}
}

// other requests for offers: unknown targets, lists that do not match.
func (w *w30) odds() {
	t := w.T
	c := vnode.CID("a0", 5)
	one := []string{strings.Repeat("ab", 32)}
	stranger := vnode.NewIdent("stranger", 60, "77")
	for i := range w.peers {
		i := i
		w.peers[i].Down(false)
		w.peers[i].Script(func(m *fcrmessages.FCRMessage) []byte { return w.reply(i, "found", m) })
	}
	type q struct {
		name    string
		ids     []*vnode.Ident
		digs    [][]string
		want    []int // who must be reported, unless the whole is refused
		mayFail bool
	}
	p := w.peers
	for _, x := range []q{
		{"an unknown gateway", []*vnode.Ident{stranger}, [][]string{one}, nil, true},
		{"a known and an unknown gateway", []*vnode.Ident{p[0].Ident, stranger}, [][]string{one, one}, []int{0}, true},
		{"an unknown and a known gateway", []*vnode.Ident{stranger, p[0].Ident}, [][]string{one, one}, []int{0}, true},
		{"a gateway with an unreadable key", []*vnode.Ident{w.odd, p[0].Ident}, [][]string{one, one}, []int{0}, true},
		{"more gateways than lists", []*vnode.Ident{p[0].Ident, p[1].Ident}, [][]string{one}, []int{0}, true},
		{"gateways without lists", []*vnode.Ident{p[0].Ident}, [][]string{}, nil, true},
		{"more lists than gateways", []*vnode.Ident{p[0].Ident}, [][]string{one, one}, []int{0}, true},
		{"no gateways", nil, nil, nil, true},
		{"a gateway without digests", []*vnode.Ident{p[0].Ident, p[1].Ident}, [][]string{{}, one}, []int{0, 1}, true},
	} {
		for i := range w.peers {
			w.peers[i].Down(false)
		}
		w.sent = map[int]*fcrmessages.FCRMessage{}
		nonce := w.Nonce()
		ids := []nodeid.NodeID{}
		for _, i := range x.ids {
			ids = append(ids, *i.ID)
		}
		desc := "offers asked of " + x.name
		t.Case(func() string { return desc })
		t.Eval()
		t.Transition()
		m, err := fcrmessages.EncodeClientDHTDiscoverOfferRequest(c, nonce, x.digs, ids, w.payer.Ch.String(), w.payer.Voucher(100))
		r := vnode.Send(w.Rest, w.asker.Sign(m, err))
		if r.Err != nil || len(r.Docs) != 1 {
			t.Violate("c30:offers:odd", desc+": not one answer: "+r.String(), desc)
			continue
		}
		rm := r.Msg()
		if rm == nil {
			if r.Status == 500 && strings.Contains(string(r.Body), "Internal Server Error") {
				t.Violate("c30:offers:crash", desc+": the handler crashed: "+r.String(), desc)
			}
			continue
		}
		cc, n, cont, rs, _, _, err := fcrmessages.DecodeClientDHTDiscoverOfferResponse(rm)
		if err != nil || n != nonce || cc.ToString() != c.ToString() || len(cont) != len(rs) || !w.Me.Signed(rm) {
			t.Violate("c30:offers:odd", fmt.Sprintf("%s: not an answer to this request: %v %s", desc, err, r), desc)
			continue
		}
		got := []string{}
		for k := range cont {
			got = append(got, cont[k].ToString())
			for i := range w.peers {
				if w.peers[i].Hex == cont[k].ToString() && (w.sent[i] == nil || !bytes.Equal(vnode.Bytes(&rs[k]), vnode.Bytes(w.sent[i]))) {
					t.Violate("c30:offers:answer", desc+": reported with an answer it did not give", desc)
				}
			}
		}
		want := []string{}
		for _, i := range x.want {
			want = append(want, w.peers[i].Hex)
		}
		sort.Strings(got)
		sort.Strings(want)
		if fmt.Sprint(got) != fmt.Sprint(want) {
			t.Violate("c30:offers:odd", fmt.Sprintf("%s: reported %v, should be %v", desc, got, want), desc)
		}
		t.State(desc)
		t.Trace()
	}
}

// late: an expired request is not served, and nobody is asked.
func (w *w30) late() {
	t := w.T
	c := vnode.CID("a0", 6)
	for i := range w.peers {
		i := i
		w.peers[i].Down(false)
		w.peers[i].Script(func(m *fcrmessages.FCRMessage) []byte { return w.reply(i, "found", m) })
	}
	for kind := 0; kind < 2; kind++ {
		for _, ago := range []int64{-1, -1000, -1 << 40} {
			late = ago
			ttl := TTL()
			late = 0
			desc := fmt.Sprintf("%s %d seconds past its time", kinds30[kind], -ago)
			t.Case(func() string { return desc })
			t.Eval()
			t.Transition()
			w.sent = map[int]*fcrmessages.FCRMessage{}
			m, err := fcrmessages.EncodeClientDHTDiscoverRequest(c, 5, ttl, 2, false, "", "")
			if kind == 1 {
				m, err = fcrmessages.EncodeClientDHTDiscoverRequestV2(c, 5, ttl, 2, false, w.payer.Ch.String(), w.payer.Voucher(100))
			}
			r := vnode.Send(w.Rest, w.asker.Sign(m, err))
			if rm := r.Msg(); rm != nil {
				t.Violate("c30:expired", desc+": is served: "+r.String(), desc)
			}
			for _, p := range w.peers {
				if len(p.Got()) > 0 {
					t.Violate("c30:expired", desc+": gateways are asked", desc)
				}
			}
			t.Trace()
		}
	}
}

func c30(t *vh.T, main func()) {
	n := Start(t, main, "TCP_INACTIVITY_TIMEOUT=2s")
	w := &w30{Node: n}
	w.asker = vnode.NewIdent("client", 9, "90")
	for i, lead := range []string{"10", "60", "90", "c0"} {
		p := vnode.NewPeer(vnode.NewIdent(fmt.Sprint("peer", i), 3+i, lead))
		n.Reg.Gateway(p.Ident, p.Addr, "127.0.0.1:1", "127.0.0.1:1")
		w.peers = append(w.peers, p)
	}
	n.Init()
	w.payer = vnode.NewPayer(n.Chain, 30, n.Me.Wallet.Addr, 1<<60)
	t.State("start")
	cids := []*cid.ContentID{vnode.CID("a0", 1), vnode.CID("05", 2)}
	idx := 0
	mine := func() bool { idx++; return t.Mine(idx) && !t.Over() }
	full := len(acts)
	slow := func(l []string) bool {
		for _, a := range l {
			if a == "silent" {
				return true
			}
		}
		return false
	}
	for kind := range kinds30 {
		for ci, c := range cids {
			var rec func(b []string, num, alpha int)
			rec = func(b []string, num, alpha int) {
				if len(b) == num || len(b) == len(w.peers) {
					if ci > 0 && slow(b) {
						return
					}
					if mine() {
						w.do(kind, c, num, b, "", true)
						if slow(b) {
							w.drop()
						}
					}
					return
				}
				for _, a := range acts[:alpha] {
					rec(append(append([]string{}, b...), a), num, alpha)
				}
			}
			rec(nil, 1, full)
			rec(nil, 2, full)
			rec(nil, 3, t.Pick(8, full-1))
			rec(nil, 4, t.Pick(4, 7))
			if kind < 2 {
				rec(nil, 0, full)
				rec(nil, 5, 4)
				rec(nil, 9, 2)
			}
		}
	}
	// an answer nobody waits for any more must not be taken for the next one's
	for k1 := range kinds30 {
		for k2 := range kinds30 {
			for same := 0; same < 2; same++ {
				if mine() {
					w.drop()
					w.do(k1, cids[0], 2, []string{"twice", "found"}, "", true)
					c := cids[0]
					if same == 0 {
						c = vnode.CID("a0", 77)
					}
					w.do(k2, c, 2, []string{"found", "found"}, "after an answer given twice, ", false)
					w.drop()
				}
			}
		}
	}
	// a gateway whose registered key cannot be read
	w.odd = vnode.NewIdent("odd", 20, "a1")
	n.Reg.RawGateway(register.GatewayRegister{NodeID: w.odd.Hex, Address: w.odd.Wallet.Addr.String(), RootSigningKey: "zz", SigningKey: "zz", RegionCode: "AU", NetworkInfoGateway: "127.0.0.1:1", NetworkInfoProvider: "127.0.0.1:1", NetworkInfoClient: "127.0.0.1:1", NetworkInfoAdmin: "127.0.0.1:1"})
	n.Refresh()
	if t.Shard == 0 {
		w.odds()
		w.late()
	}
	if t.Over() {
		t.NotExhaustive("time")
	}
	t.Sample(fmt.Sprint("behaviours: ", acts))
	_ = fcrcrypto.InitialKeyVersion
}
