//go:build go1.21

package nodechecks

import (
	"encoding/json"
	"fmt"
	"sort"
	"strings"
	"time"

	"github.com/cbergoon/merkletree"

	"github.com/ConsenSys/fc-retrieval/common/pkg/cid"
	"github.com/ConsenSys/fc-retrieval/common/pkg/cidoffer"
	"github.com/ConsenSys/fc-retrieval/common/pkg/fcrcrypto"
	"github.com/ConsenSys/fc-retrieval/common/pkg/fcrmerkletree"
	"github.com/ConsenSys/fc-retrieval/common/pkg/fcrmessages"
	"github.com/ConsenSys/fc-retrieval/common/pkg/nodeid"
	"github.com/ConsenSys/fc-retrieval/common/pkg/register"
	"github.com/ConsenSys/fc-retrieval/provider/internal/core"

	"github.com/ConsenSys/fc-retrieval/common/verif/vh"
	"github.com/ConsenSys/fc-retrieval/common/verif/vnode"
)

func init() { checks["c22"] = c22 }

// what a gateway may answer to a publication; only the first acknowledges it
var acts = []string{"good", "wrong key", "unsigned", "another gateway's acknowledgement", "wrong nonce", "for another message", "earlier acknowledgement",
	"inner signature of another gateway", "inner signature empty", "wrong kind", "refusal", "garbage", "hang up"}

// and to a group offer besides
var groupActs = []string{"good", "wrong key", "unsigned", "another gateway's acknowledgement", "names another gateway", "for another message", "earlier acknowledgement",
	"empty digest", "short digest", "digest that is no digest", "wrong kind", "refusal", "garbage", "hang up"}

// what a gateway may answer to a list of offers
var ackActs = []string{"good", "wrong key", "unsigned", "one missing", "one too many", "wrong order", "for another message", "inner signature of another gateway", "inner signature empty", "wrong nonce", "last is wrong", "first is wrong", "wrong kind", "inner wrong kind", "garbage", "hang up"}

type pair struct{ msg, ack string }

type w22 struct {
	*Node
	gw      [3]*vnode.Peer
	odd     *vnode.Ident // registered with a key that cannot be read
	far     *vnode.Ident // registered, unreachable
	unknown *vnode.Ident
	conn    [3]*vnode.P2P
	act     [3]string
	uniq    int
	hist    []string

	// reference state
	sent    map[string]map[string]bool // gateway -> offers it acknowledged when published
	listed  map[string]map[string]bool // gateway -> offers it acknowledged when it asked for them
	maybe   map[string]map[string]bool // gateway|cid -> acknowledged, but along with wrong ones
	acks    map[string]map[pair]bool   // gateway|cid -> genuine exchanges
	dht     map[string][]string        // cid -> single offers published, in order
	all     map[string]map[string]bool // cid -> offers published
	support map[string]bool
	cids    map[string]*cid.ContentID
	last    [3]*fcrmessages.FCRMessage // the last genuine acknowledgement a gateway gave
	lastG   [3]*fcrmessages.FCRMessage
	asked   [3]int
	offer   *cidoffer.CIDOffer // the last single offer published
	even    bool               // single offers are published on equal terms
}

func (w *w22) bad(key, why string, r interface{}) {
	w.T.Violate("c22:"+key, fmt.Sprintf("after %v: %s: %v", w.hist, why, r), w.hist)
}

func text(m *fcrmessages.FCRMessage) string { return string(vnode.Bytes(m)) }

func (w *w22) clear() {
	w.Clear()
	w.Init()
	w.sent, w.listed, w.maybe = map[string]map[string]bool{}, map[string]map[string]bool{}, map[string]map[string]bool{}
	w.acks, w.dht, w.all = map[string]map[pair]bool{}, map[string][]string{}, map[string]map[string]bool{}
	w.support, w.cids, w.hist = map[string]bool{}, map[string]*cid.ContentID{}, nil
	w.last, w.lastG, w.offer = [3]*fcrmessages.FCRMessage{}, [3]*fcrmessages.FCRMessage{}, nil
	w.act = [3]string{"good", "good", "good"}
}

func put(m map[string]map[string]bool, k, v string) {
	if m[k] == nil {
		m[k] = map[string]bool{}
	}
	m[k][v] = true
}

// script of gateway i
func (w *w22) script(i int) func(m *fcrmessages.FCRMessage) []byte {
	return func(m *fcrmessages.FCRMessage) []byte {
		g, o := w.gw[i], w.gw[(i+1)%3]
		act := w.act[i]
		w.asked[i]++
		if !w.Me.Signed(m) {
			w.bad("request", "a publication is not signed by the provider", m.DumpMessage())
		}
		switch act {
		case "refusal":
			r, err := fcrmessages.EncodeInvalidMessageResponse()
			return vnode.Bytes(g.Sign(r, err))
		case "garbage":
			return []byte("{\"message_type\":")
		case "hang up":
			return nil
		}
		switch m.GetMessageType() {
		case fcrmessages.ProviderPublishDHTOfferRequestType:
			id, n, offers, err := fcrmessages.DecodeProviderPublishDHTOfferRequest(m)
			if err != nil || id.ToString() != w.Me.Hex {
				w.bad("request", "a publication cannot be read, or is another's", err)
				return nil
			}
			body := m.GetMessageBody()
			signer := g.Ident
			switch act {
			case "for another message":
				x, err := fcrmessages.EncodeProviderPublishDHTOfferRequest(id, n, offers[:0])
				vnode.Must(err)
				body = x.GetMessageBody()
			case "wrong nonce":
				n += 1
			case "inner signature of another gateway", "another gateway's acknowledgement":
				signer = o.Ident
			case "earlier acknowledgement":
				if w.last[i] != nil && text(w.last[i]) != "" {
					return vnode.Bytes(w.last[i])
				}
				body = append(append([]byte{}, body...), ' ')
			}
			sig, err := fcrcrypto.SignMessage(signer.Key, vnode.Ver, body)
			vnode.Must(err)
			if act == "inner signature empty" {
				sig = ""
			}
			r, err := fcrmessages.EncodeProviderPublishDHTOfferResponse(n, sig)
			vnode.Must(err)
			if act == "wrong kind" {
				r = fcrmessages.CreateFCRMessage(fcrmessages.ProviderPublishGroupOfferResponseType, r.GetMessageBody())
			}
			w.envelope(r, act, g.Ident, o.Ident)
			if act == "good" {
				w.last[i] = r
				for k := range offers {
					put(w.sent, g.Hex, Offer(&offers[k]))
					w.ack(g.Hex, first(&offers[k]).ToString(), m, r)
				}
			}
			return vnode.Bytes(r)
		case fcrmessages.ProviderPublishGroupOfferRequestType:
			id, _, off, err := fcrmessages.DecodeProviderPublishGroupOfferRequest(m)
			if err != nil || id.ToString() != w.Me.Hex {
				w.bad("request", "a publication cannot be read, or is another's", err)
				return nil
			}
			who := *g.ID
			d := cidoffer.EncodeMessageDigest(off.GetMessageDigest())
			switch act {
			case "names another gateway", "another gateway's acknowledgement":
				who = *o.ID
			case "for another message":
				x := w.Me.Offer([]*cid.ContentID{w.fresh(), w.fresh()}, 5, 6, 7)
				d = cidoffer.EncodeMessageDigest(x.GetMessageDigest())
			case "empty digest":
				d = ""
			case "short digest":
				d = d[:8]
			case "digest that is no digest":
				d = "!!"
			case "earlier acknowledgement":
				if w.lastG[i] != nil {
					return vnode.Bytes(w.lastG[i])
				}
				d = ""
			}
			r, err := fcrmessages.EncodeProviderPublishGroupOfferResponse(who, d)
			vnode.Must(err)
			if act == "wrong kind" {
				r = fcrmessages.CreateFCRMessage(fcrmessages.ProviderPublishDHTOfferResponseType, r.GetMessageBody())
			}
			w.envelope(r, act, g.Ident, o.Ident)
			if act == "good" {
				w.lastG[i] = r
				put(w.sent, g.Hex, Offer(off))
			}
			return vnode.Bytes(r)
		}
		w.bad("request", "an unexpected request", m.GetMessageType())
		return nil
	}
}

func (w *w22) envelope(r *fcrmessages.FCRMessage, act string, g, o *vnode.Ident) {
	switch act {
	case "unsigned":
	case "wrong key", "another gateway's acknowledgement":
		o.Sign(r, nil)
	default:
		g.Sign(r, nil)
	}
}

func (w *w22) ack(g, c string, m, a *fcrmessages.FCRMessage) {
	k := g + "|" + c
	if w.acks[k] == nil {
		w.acks[k] = map[pair]bool{}
	}
	w.acks[k][pair{text(m), text(a)}] = true
}

func (w *w22) fresh() *cid.ContentID {
	w.uniq++
	return vnode.CID("5a", w.uniq)
}

func first(o *cidoffer.CIDOffer) *cid.ContentID { l := o.GetCIDs(); return &l[0] }

// publish has the administrator publish single offers for the CIDs.
func (w *w22) publish(cids []*cid.ContentID, price uint64) {
	l := []cid.ContentID{}
	var pr, qo []uint64
	var ex []int64
	for i, c := range cids {
		l = append(l, *c)
		p := price
		if !w.even {
			p += uint64(i)
		}
		pr, ex, qo = append(pr, p), append(ex, vnode.Forever), append(qo, 3)
		w.cids[c.ToString()] = c
	}
	m, err := fcrmessages.EncodeProviderAdminPublishDHTOfferRequest(l, pr, ex, qo)
	vnode.Must(err)
	r := vnode.Send(w.Admin, m)
	rm := r.Msg()
	ok := false
	if w.Me.Signed(rm) {
		ok, _ = fcrmessages.DecodeProviderAdminPublishDHTOfferResponse(rm)
	}
	if !ok {
		w.bad("publish", "publishing single offers is not acknowledged", r)
	}
	for i, c := range cids {
		o := w.Me.Offer([]*cid.ContentID{c}, pr[i], ex[i], qo[i])
		w.dht[c.ToString()] = append(w.dht[c.ToString()], Offer(o))
		put(w.all, c.ToString(), Offer(o))
		w.offer = o
	}
}

func (w *w22) publishGroup(cids []*cid.ContentID, price uint64) {
	l := []cid.ContentID{}
	for _, c := range cids {
		l = append(l, *c)
		w.cids[c.ToString()] = c
	}
	m, err := fcrmessages.EncodeProviderAdminPublishGroupOfferRequest(l, price, vnode.Forever, 3)
	vnode.Must(err)
	r := vnode.Send(w.Admin, m)
	rm := r.Msg()
	ok := false
	if w.Me.Signed(rm) {
		ok, _ = fcrmessages.DecodeProviderAdminPublishGroupOfferResponse(rm)
	}
	if !ok {
		w.bad("publish", "publishing a group offer is not acknowledged", r)
	}
	for _, c := range cids {
		put(w.all, c.ToString(), Offer(w.Me.Offer(cids, price, vnode.Forever, 3)))
	}
}

// list has a gateway ask for the offers of a range, and answer as told.
func (w *w22) list(i int, lo, hi *cid.ContentID, act string) {
	g, o := w.gw[i], w.gw[(i+1)%3]
	m, err := fcrmessages.EncodeGatewayListDHTOfferRequest(g.ID, lo, hi, "a", "b", "c", proof())
	r, err := w.conn[i].Ask(vnode.Bytes(g.Sign(m, err)))
	if err != nil {
		w.bad("list", "no answer to a gateway that asks for offers", err)
		return
	}
	msgs, err := fcrmessages.DecodeGatewayListDHTOfferResponse(r)
	if err != nil || !w.Me.Signed(r) {
		w.bad("list", "a gateway that asks for offers is refused", r.DumpMessage())
		return
	}
	got := []string{}
	in := [][]cidoffer.CIDOffer{}
	for k := range msgs {
		id, _, l, err := fcrmessages.DecodeProviderPublishDHTOfferRequest(&msgs[k])
		if err != nil || id.ToString() != w.Me.Hex || !w.Me.Signed(&msgs[k]) {
			w.bad("list:message", "a listed message cannot be believed", err)
			return
		}
		in = append(in, l)
		for x := range l {
			got = append(got, Offer(&l[x]))
		}
	}
	want := []string{}
	for c, l := range w.dht {
		if c >= lo.ToString() && c <= hi.ToString() {
			want = append(want, l...)
		}
	}
	sort.Strings(got)
	sort.Strings(want)
	if strings.Join(got, "\n") != strings.Join(want, "\n") {
		w.bad("list:offers", fmt.Sprintf("asked for the offers of a range, %d are listed and %d were published", len(got), len(want)), "")
	}
	// the acknowledgements
	inner := []fcrmessages.FCRMessage{}
	valid := []bool{}
	one := func(k int, act string) {
		_, n, _, err := fcrmessages.DecodeProviderPublishDHTOfferRequest(&msgs[k])
		vnode.Must(err)
		body, signer := msgs[k].GetMessageBody(), g.Ident
		switch act {
		case "for another message":
			body = append(append([]byte{}, body...), ' ')
		case "inner signature of another gateway":
			signer = o.Ident
		case "wrong nonce":
			n++
		}
		sig, err := fcrcrypto.SignMessage(signer.Key, vnode.Ver, body)
		vnode.Must(err)
		if act == "inner signature empty" {
			sig = ""
		}
		a, err := fcrmessages.EncodeProviderPublishDHTOfferResponse(n, sig)
		vnode.Must(err)
		if act == "inner wrong kind" {
			a = fcrmessages.CreateFCRMessage(fcrmessages.ProviderPublishGroupOfferResponseType, a.GetMessageBody())
		}
		inner = append(inner, *a)
		valid = append(valid, act == "good")
	}
	for k := range msgs {
		x := act
		switch act {
		case "last is wrong":
			x = "good"
			if k == len(msgs)-1 {
				x = "for another message"
			}
		case "first is wrong":
			x = "good"
			if k == 0 {
				x = "for another message"
			}
		case "for another message", "inner signature of another gateway", "wrong nonce", "inner signature empty", "inner wrong kind":
		default:
			x = "good"
		}
		one(k, x)
	}
	takes := true
	switch act {
	case "one missing":
		takes = len(inner) == 0
		if len(inner) > 0 {
			inner = inner[:len(inner)-1]
		}
	case "one too many":
		takes = false
		a, err := fcrmessages.EncodeProviderPublishDHTOfferResponse(1, "00")
		vnode.Must(err)
		inner = append(inner, *a)
	case "wrong order":
		if len(inner) > 1 {
			takes = false
			inner[0], inner[1] = inner[1], inner[0]
		}
	case "wrong key", "unsigned", "wrong kind", "garbage", "hang up":
		takes = false
	}
	ack, err := fcrmessages.EncodeGatewayListDHTOfferAck(inner)
	vnode.Must(err)
	switch act {
	case "wrong key":
		o.Sign(ack, nil)
	case "unsigned":
	case "wrong kind":
		ack = fcrmessages.CreateFCRMessage(fcrmessages.GatewayListDHTOfferResponseType, ack.GetMessageBody())
		g.Sign(ack, nil)
	default:
		g.Sign(ack, nil)
	}
	good := 0
	for _, v := range valid {
		if v {
			good++
		}
	}
	if takes {
		for k := range msgs {
			if !valid[k] {
				continue
			}
			for x := range in[k] {
				c := first(&in[k][x]).ToString()
				if good < len(msgs) { // a wrong one among them may spoil the rest
					put(w.maybe, g.Hex+"|"+c, text(&msgs[k]))
					w.maybe[g.Hex+"|"+c][text(&msgs[k])+text(&inner[k])] = true
					continue
				}
				put(w.listed, g.Hex, Offer(&in[k][x]))
				w.ack(g.Hex, c, &msgs[k], &inner[k])
			}
		}
	}
	p := w.conn[i]
	switch act {
	case "hang up":
		p.Close()
	case "garbage":
		p.Tell([]byte("{"))
	default:
		p.Tell(vnode.Bytes(ack))
	}
	w.settle(i)
}

// settle waits until the provider is done with what a gateway sent before.
func (w *w22) settle(i int) {
	p := w.conn[i]
	if p.Open() {
		m, err := fcrmessages.EncodeInvalidMessageResponse()
		p.Ask(vnode.Bytes(w.gw[i].Sign(m, err)))
	} else {
		// its connection is gone: a moment is enough for a handler that has nothing to wait for
		for k := 0; k < 200; k++ {
			time.Sleep(time.Millisecond / 10)
		}
	}
}

func (w *w22) notify(i int, yes bool, by *vnode.Ident) {
	g := w.gw[i]
	m, err := fcrmessages.EncodeGatewayNotifyProviderGroupCIDOfferSupportRequest(g.ID, yes)
	r, err := w.conn[i].Ask(vnode.Bytes(by.Sign(m, err)))
	if err != nil {
		w.bad("notice", "no answer to a notice", err)
		return
	}
	ok, derr := fcrmessages.DecodeGatewayNotifyProviderGroupCIDOfferSupportResponse(r)
	want := by == g.Ident
	if (derr == nil && ok) != want || want && !w.Me.Signed(r) {
		w.bad("notice", fmt.Sprint("a notice signed by its gateway: ", want, ", acknowledged: ", ok, derr), r.DumpMessage())
	}
	if want {
		w.support[g.Hex] = yes
	}
}

// check compares everything the provider can be asked with what happened.
func (w *w22) check() {
	c := core.GetSingleInstance()
	names := func(m map[string]bool) string {
		l := []string{}
		for k, v := range m {
			if v {
				l = append(l, k)
			}
		}
		sort.Strings(l)
		return strings.Join(l, " ")
	}
	s := map[string]bool{}
	for _, x := range c.GroupOfferGatewayIDs {
		if s[x.ToString()] {
			w.bad("notice:twice", "a gateway is noted twice", x.ToString())
		}
		s[x.ToString()] = true
	}
	if names(s) != names(w.support) {
		w.bad("notice:kept", "gateways noted to take group offers: "+names(s)+", told: "+names(w.support), "")
	}
	// acknowledgements handed to clients
	ids := []*vnode.Ident{w.gw[0].Ident, w.gw[1].Ident, w.gw[2].Ident, w.far, w.unknown}
	w.cids["none"] = vnode.CID("00", 1)
	order := []string{}
	for k := range w.cids {
		order = append(order, k)
	}
	sort.Strings(order)
	for n, k := range order {
		cd, few := w.cids[k], ids
		if n >= 6 && k != "none" {
			few = ids[:1]
		}
		for _, g := range few {
			m, err := fcrmessages.EncodeClientDHTOfferAckRequest(cd, g.ID)
			vnode.Must(err)
			r := vnode.Send(w.Rest, m)
			rm := r.Msg()
			if !w.Me.Signed(rm) {
				w.bad("client", "a client's request is not answered", r)
				continue
			}
			rc, rg, found, a, b, err := fcrmessages.DecodeClientDHTOfferAckResponse(rm)
			if err != nil || rc.ToString() != cd.ToString() || rg.ToString() != g.Hex {
				w.bad("client", "a client's answer is for something else", r)
				continue
			}
			k := g.Hex + "|" + cd.ToString()
			switch {
			case found && !w.acks[k][pair{text(a), text(b)}] && !w.maybe[k][text(a)+text(b)]:
				w.bad("client:false", "a client is given an acknowledgement that gateway "+g.Hex[:2]+" did not give for "+cd.ToString()[:10], text(b))
			case !found && len(w.acks[k]) > 0:
				w.bad("client:lost", "a client is told gateway "+g.Hex[:2]+" did not acknowledge "+cd.ToString()[:10], "")
			}
			w.T.EvalN(1)
		}
	}
	delete(w.cids, "none")
	// published offers
	for _, q := range [][]*vnode.Ident{{}, {ids[0]}, {ids[1]}, {ids[2]}, {ids[0], ids[2]}, {ids[3]}, {ids[4]}, {ids[4], ids[1]}} {
		l := []nodeid.NodeID{}
		for _, g := range q {
			l = append(l, *g.ID)
		}
		m, err := fcrmessages.EncodeProviderAdminGetPublishedOfferRequest(l)
		vnode.Must(err)
		r := vnode.Send(w.Admin, m)
		rm := r.Msg()
		if !w.Me.Signed(rm) {
			w.bad("published", "a request for published offers is not answered", r)
			continue
		}
		found, offers, err := fcrmessages.DecodeProviderAdminGetPublishedOfferResponse(rm)
		if err != nil {
			w.bad("published", "a request for published offers is not answered", r)
			continue
		}
		if len(q) == 0 {
			q = ids
		}
		want, may := map[string]bool{}, map[string]bool{}
		for _, g := range q {
			for o := range w.sent[g.Hex] {
				want[o] = true
			}
			for o := range w.listed[g.Hex] {
				may[o] = true
			}
			for _, k := range w.dht {
				for _, o := range k {
					for mk := range w.maybe {
						if strings.HasPrefix(mk, g.Hex) {
							may[o] = true
						}
					}
				}
			}
		}
		got := map[string]bool{}
		for i := range offers {
			got[Offer(&offers[i])] = true
		}
		for o := range got {
			if !want[o] && !may[o] {
				w.bad("published:false", "an offer is reported that no gateway asked about acknowledged", o)
			}
		}
		for o := range want {
			if !got[o] {
				w.bad("published:lost", "an acknowledged offer is not reported", o)
			}
		}
		if found != (len(offers) > 0) {
			w.bad("published:found", fmt.Sprint("found is ", found, " for ", len(offers), " offers"), "")
		}
	}
	// the provider's own store
	for cs, cd := range w.cids {
		l, _ := c.OffersMgr.GetOffers(cd)
		got := map[string]bool{}
		for i := range l {
			got[Offer(&l[i])] = true
		}
		for o := range w.all[cs] {
			if !got[o] {
				w.bad("store", "a published offer is not in the provider's store", o)
			}
		}
		for o := range got {
			if !w.all[cs][o] {
				w.bad("store", "the provider's store has an offer that was not published", o)
			}
		}
	}
	key := []string{}
	for k, v := range w.acks {
		key = append(key, fmt.Sprint(k[:2], len(v)))
	}
	for k, v := range w.sent {
		key = append(key, fmt.Sprint(k[:2], "s", len(v)))
	}
	sort.Strings(key)
	w.T.State(fmt.Sprint(key, len(w.listed), len(w.maybe), names(w.support)))
}

type op22 struct {
	name string
	do   func(w *w22)
}

func (w *w22) run(ops ...op22) {
	w.clear()
	for _, o := range ops {
		w.hist = append(w.hist, o.name)
		w.T.Case(func() string { return fmt.Sprint("provider, ", w.hist) })
		o.do(w)
		w.T.Transition()
		w.check()
	}
	w.T.Trace()
	w.T.Outcome(fmt.Sprint(len(w.acks), " acknowledgements, ", len(w.sent), " gateways"))
}

func with(a0, a1, a2 string, f func(w *w22)) func(w *w22) {
	return func(w *w22) {
		w.act = [3]string{a0, a1, a2}
		f(w)
		w.act = [3]string{"good", "good", "good"}
	}
}

func dht(n int) func(w *w22) {
	return func(w *w22) {
		l := []*cid.ContentID{}
		for i := 0; i < n; i++ {
			l = append(l, w.fresh())
		}
		before := w.asked
		w.publish(l, 10)
		for i := range before {
			if w.asked[i] == before[i] && w.act[i] == "good" {
				w.bad("publish:asked", fmt.Sprint("offers were not published to gateway ", i), "")
			}
		}
	}
}

func again(w *w22) {
	if w.offer != nil {
		w.publish([]*cid.ContentID{first(w.offer)}, 20)
	}
}

func group(n int) func(w *w22) {
	return func(w *w22) {
		l := []*cid.ContentID{}
		for i := 0; i < n; i++ {
			l = append(l, w.fresh())
		}
		w.publishGroup(l, 10)
	}
}

func listAll(i int, act string) func(w *w22) {
	return func(w *w22) { w.list(i, vnode.CID("5a", 0), vnode.CID("5b", 0), act) }
}

func c22(t *vh.T, main func()) {
	w := &w22{Node: Start(t, main)}
	t.Assume("between histories the provider's key, stores and records are cleared in its memory, which stands for restarting it")
	for i := range w.gw {
		w.gw[i] = vnode.NewPeer(vnode.NewIdent(fmt.Sprint("gateway ", i), 40+i, fmt.Sprintf("%d0", 3+3*i)))
		w.gw[i].Script(w.script(i))
		w.Reg.Gateway(w.gw[i].Ident, "127.0.0.1:1", w.gw[i].Addr, "127.0.0.1:1")
		w.conn[i] = &vnode.P2P{Port: w.Gw}
	}
	w.odd = vnode.NewIdent("odd", 60, "c1")
	w.far = vnode.NewIdent("far", 61, "c2")
	w.unknown = vnode.NewIdent("unknown", 62, "c3")
	w.Reg.RawGateway(register.GatewayRegister{NodeID: w.odd.Hex, Address: "t1x", RootSigningKey: "zz", SigningKey: "zz", RegionCode: "AU",
		NetworkInfoGateway: "127.0.0.1:1", NetworkInfoProvider: "127.0.0.1:1", NetworkInfoClient: "127.0.0.1:1", NetworkInfoAdmin: "127.0.0.1:1"})
	w.Reg.Gateway(w.far, "127.0.0.1:1", "127.0.0.1:1", "127.0.0.1:1")
	w.clear()
	w.Refresh()

	n := 0
	each := func(ops ...op22) {
		n++
		if !t.Mine(n) {
			return
		}
		if t.Over() {
			t.NotExhaustive("time")
			return
		}
		w.run(ops...)
	}
	name := func(s ...interface{}) string { return fmt.Sprint(s...) }

	// one publication, every answer of two gateways
	for _, a := range acts {
		for _, b := range acts {
			for k := 1; k <= 2; k++ {
				each(op22{name("publish ", k, " single offers, answers ", a, ", ", b), with(a, b, "good", dht(k))})
			}
		}
	}
	for _, a := range groupActs {
		for _, b := range groupActs {
			each(op22{name("publish a group offer, answers ", a, ", ", b), with(a, b, "good", group(2))})
		}
	}
	// one listing of so many offers, every answer
	for _, k := range []int{0, 1, 3, 49, 50, 51, 100, 101} {
		for _, a := range ackActs {
			ops := []op22{}
			if k > 0 {
				ops = append(ops, op22{name("publish ", k, " single offers, refused"), with("refusal", "refusal", "refusal", func(w *w22) { w.many(k) })})
			}
			each(append(ops, op22{name("gateway lists, answer ", a), listAll(0, a)})...)
		}
	}
	// parts of the range
	for lo := 0; lo <= 6; lo++ {
		for hi := lo; hi <= 6; hi++ {
			each(op22{"publish five", with("refusal", "good", "hang up", func(w *w22) { w.uniq = 0; w.many(5) })}, op22{name("gateway lists ", lo, " to ", hi), func(w *w22) {
				w.list(1, vnode.CID("5a", lo), vnode.CID("5a", hi), "good")
			}})
		}
	}
	// requests that must be refused
	each(op22{"publish two", dht(2)}, op22{"requests of the wrong party", func(w *w22) { w.strangers() }})
	each(op22{"publish two", with("refusal", "refusal", "refusal", dht(2))}, op22{"requests of the wrong party", func(w *w22) { w.strangers() }})

	// histories
	ops := []op22{}
	few := []string{"good", "wrong key", "earlier acknowledgement"}
	for _, a := range few {
		for _, b := range few {
			ops = append(ops, op22{name("publish 1, ", a, ", ", b), with(a, b, "good", dht(1))})
		}
		ops = append(ops, op22{name("publish 2, ", a), with(a, "good", "refusal", dht(2))}, op22{name("publish the last again, ", a), with(a, "good", "hang up", again)},
			op22{name("publish group, ", a), with(a, "good", "refusal", group(2))}, op22{name("publish group, second ", a), with("good", a, "good", group(3))})
	}
	for i := 0; i < 2; i++ {
		for _, a := range []string{"good", "for another message", "hang up"} {
			ops = append(ops, op22{name("gateway ", i, " lists, answer ", a), listAll(i, a)})
		}
		i := i
		ops = append(ops, op22{name("gateway ", i, " takes group offers"), func(w *w22) { w.notify(i, true, w.gw[i].Ident) }}, op22{name("gateway ", i, " takes no group offers"), func(w *w22) { w.notify(i, false, w.gw[i].Ident) }},
			op22{name("gateway ", i, " is said to take group offers"), func(w *w22) { w.notify(i, true, w.gw[2].Ident) }})
	}
	for _, a := range ops {
		for _, b := range ops {
			if t.Thorough() {
				for _, c := range ops {
					each(a, b, c)
				}
			} else {
				each(a, b)
			}
		}
	}
	// notices alone go deeper
	tell := []op22{}
	for i := 0; i < 3; i++ {
		i := i
		tell = append(tell, op22{name("gateway ", i, " takes group offers"), func(w *w22) { w.notify(i, true, w.gw[i].Ident) }}, op22{name("gateway ", i, " takes no group offers"), func(w *w22) { w.notify(i, false, w.gw[i].Ident) }})
	}
	var rec func(seq []op22)
	rec = func(seq []op22) {
		if len(seq) == t.Pick(3, 5) {
			each(seq...)
			return
		}
		for _, o := range tell {
			rec(append(append([]op22{}, seq...), o))
		}
	}
	rec(nil)
}

// many publishes offers for k CIDs, with one command for all up to the limit of nearness.
func (w *w22) many(k int) {
	l := []*cid.ContentID{}
	for i := 0; i < k; i++ {
		l = append(l, w.fresh())
	}
	// as the gateways refuse, they are asked only once for all
	w.even = true
	w.publish(l, 10)
	w.even = false
}

// proof is what a gateway shows of its registration.
func proof() *fcrmerkletree.FCRMerkleProof {
	c := vnode.CID("5a", 1)
	t, err := fcrmerkletree.CreateMerkleTree([]merkletree.Content{c, vnode.CID("5a", 2)})
	vnode.Must(err)
	p, err := t.GenerateMerkleProof(c)
	vnode.Must(err)
	return p
}

// strangers sends requests that are not their gateway's.
func (w *w22) strangers() {
	p := &vnode.P2P{Port: w.Gw}
	defer p.Close()
	g := w.gw[0]
	try := func(name string, b []byte) {
		r, err := p.Ask(b)
		if err != nil {
			return
		}
		if r.GetMessageType() == fcrmessages.GatewayListDHTOfferResponseType || r.GetMessageType() == fcrmessages.GatewayNotifyProviderGroupCIDOfferSupportedResponseType {
			w.bad("stranger", name+" is served", r.DumpMessage())
		}
		p.Close()
	}
	lo, hi := vnode.CID("5a", 0), vnode.CID("5b", 0)
	lst := func(i *vnode.Ident) *fcrmessages.FCRMessage {
		m, err := fcrmessages.EncodeGatewayListDHTOfferRequest(i.ID, lo, hi, "a", "b", "c", proof())
		vnode.Must(err)
		return m
	}
	not := func(i *vnode.Ident) *fcrmessages.FCRMessage {
		m, err := fcrmessages.EncodeGatewayNotifyProviderGroupCIDOfferSupportRequest(i.ID, true)
		vnode.Must(err)
		return m
	}
	for _, f := range []func(*vnode.Ident) *fcrmessages.FCRMessage{lst, not} {
		n := fmt.Sprint("a request of kind ", f(g.Ident).GetMessageType())
		try(n+" without signature", vnode.Bytes(f(g.Ident)))
		try(n+" signed by another gateway", vnode.Bytes(w.gw[1].Sign(f(g.Ident), nil)))
		try(n+" signed by the provider", vnode.Bytes(w.Me.Sign(f(g.Ident), nil)))
		try(n+" of an unknown gateway", vnode.Bytes(w.unknown.Sign(f(w.unknown), nil)))
		try(n+" of a gateway whose key cannot be read", vnode.Bytes(w.odd.Sign(f(w.odd), nil)))
		// a good signature, for something else
		m := f(g.Ident)
		g.Sign(m, nil)
		o := f(w.gw[1].Ident)
		var x map[string]interface{}
		vnode.Must(json.Unmarshal(vnode.Bytes(o), &x))
		for k := range x {
			if strings.HasSuffix(k, "signature") {
				x[k] = m.GetSignature()
			}
		}
		b, err := json.Marshal(x)
		vnode.Must(err)
		try(n+" with the signature of another's", b)
		try(n+" without a body", vnode.Bytes(g.Sign(fcrmessages.CreateFCRMessage(f(g.Ident).GetMessageType(), nil), nil)))
		try(n+" with an empty body", vnode.Bytes(g.Sign(fcrmessages.CreateFCRMessage(f(g.Ident).GetMessageType(), []byte("{}")), nil)))
	}
}
