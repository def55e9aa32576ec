//go:build go1.21

package nodechecks

import (
	"encoding/json"
	"fmt"
	"strings"
	"time"

	"github.com/ConsenSys/fc-retrieval/common/pkg/cid"
	"github.com/ConsenSys/fc-retrieval/common/pkg/cidoffer"
	"github.com/ConsenSys/fc-retrieval/common/pkg/fcrcrypto"
	"github.com/ConsenSys/fc-retrieval/common/pkg/fcrmessages"
	"github.com/ConsenSys/fc-retrieval/common/pkg/nodeid"
	"github.com/ConsenSys/fc-retrieval/common/pkg/register"

	"github.com/ConsenSys/fc-retrieval/common/verif/vh"
	"github.com/ConsenSys/fc-retrieval/common/verif/vnode"
)

func init() { checks["c10"] = c10 }

type w10 struct {
	*Node
	a, b, x, k *vnode.Ident // two registered providers, an unregistered one, one whose registered key is unusable
	who        []*vnode.Ident
	n          int
	peerA      *vnode.Peer
	peerB      *vnode.Peer
}

// spec of an offer
type ospec struct {
	name   string
	by     int // whose identifier, index in who
	signer int // who signs, -1 nobody
	cids   int
	mut    string // which term is altered after signing
	past   bool
}

// mspec of a message
type mspec struct {
	name   string
	by     int
	signer int
	mut    string // altered after signing
}

func (w *w10) fresh() *cid.ContentID {
	w.n++
	return vnode.CID(fmt.Sprintf("%02x", (w.n*37)%256), w.T.Shard*1000000+w.n)
}

// build makes the offer; ok tells whether it is genuine for the named provider and kind.
func (w *w10) build(s ospec, msgBy int, dht bool) (o *cidoffer.CIDOffer, ok bool) {
	cs := []*cid.ContentID{}
	for i := 0; i < s.cids; i++ {
		cs = append(cs, w.fresh())
	}
	l := []cid.ContentID{}
	for _, c := range cs {
		l = append(l, *c)
	}
	exp := vnode.Forever
	if s.past {
		exp = time.Now().Unix() - 100
	}
	o, err := cidoffer.NewCIDOffer(w.who[s.by].ID, l, 50, exp, 3)
	vnode.Must(err)
	if s.signer >= 0 {
		vnode.Must(o.Sign(w.who[s.signer].Key, vnode.Ver))
	}
	if s.mut != "" {
		b, err := json.Marshal(o)
		vnode.Must(err)
		var m map[string]interface{}
		vnode.Must(json.Unmarshal(b, &m))
		hit := false
		for k, v := range m {
			lk := strings.ToLower(strings.ReplaceAll(k, "_", ""))
			switch {
			case s.mut == "price" && lk == "price":
				m[k], hit = 51, true
			case s.mut == "expiry" && lk == "expiry":
				m[k], hit = vnode.Forever+1000, true
			case s.mut == "qos" && lk == "qos":
				m[k], hit = 4, true
			case s.mut == "cids" && strings.HasPrefix(lk, "cid"):
				z := v.([]interface{})
				z[0] = w.fresh().ToString()
				m[k], hit = z, true
			case s.mut == "provider" && strings.HasPrefix(lk, "providerid"):
				m[k], hit = w.b.Hex, true
			case s.mut == "signature" && lk == "signature":
				t := []byte(v.(string))
				i := len(t) / 2
				if t[i] == '0' {
					t[i] = '1'
				} else {
					t[i] = '0'
				}
				m[k], hit = string(t), true
			}
		}
		if !hit {
			panic("harness: no field " + s.mut)
		}
		b, _ = json.Marshal(m)
		o = &cidoffer.CIDOffer{}
		vnode.Must(json.Unmarshal(b, o))
	}
	ok = s.by == msgBy && s.signer == s.by && s.mut == "" && (!dht || s.cids == 1)
	return o, ok
}

func (w *w10) message(s mspec, dht bool, offers []*cidoffer.CIDOffer, nonce int64) (*fcrmessages.FCRMessage, bool) {
	var m *fcrmessages.FCRMessage
	var err error
	if dht {
		l := []cidoffer.CIDOffer{}
		for _, o := range offers {
			l = append(l, *o)
		}
		m, err = fcrmessages.EncodeProviderPublishDHTOfferRequest(w.who[s.by].ID, nonce, l)
	} else {
		m, err = fcrmessages.EncodeProviderPublishGroupOfferRequest(w.who[s.by].ID, nonce, offers[0])
	}
	vnode.Must(err)
	if s.signer >= 0 {
		vnode.Must(m.Sign(w.who[s.signer].Key, vnode.Ver))
	}
	switch s.mut {
	case "nonce", "signature":
		b := vnode.Bytes(m)
		var x map[string]interface{}
		vnode.Must(json.Unmarshal(b, &x))
		hit := false
		for k, v := range x {
			if s.mut == "signature" && strings.Contains(strings.ToLower(k), "signature") {
				t := []byte(v.(string))
				i := len(t) / 2
				if t[i] == '0' {
					t[i] = '1'
				} else {
					t[i] = '0'
				}
				x[k], hit = string(t), true
			}
		}
		if s.mut == "nonce" { // the body of another message with the old signature
			var m2 *fcrmessages.FCRMessage
			if dht {
				l := []cidoffer.CIDOffer{}
				for _, o := range offers {
					l = append(l, *o)
				}
				m2, err = fcrmessages.EncodeProviderPublishDHTOfferRequest(w.who[s.by].ID, nonce+1, l)
			} else {
				m2, err = fcrmessages.EncodeProviderPublishGroupOfferRequest(w.who[s.by].ID, nonce+1, offers[0])
			}
			vnode.Must(err)
			var y map[string]interface{}
			vnode.Must(json.Unmarshal(vnode.Bytes(m2), &y))
			x["message_body"], hit = y["message_body"], true
		}
		if !hit {
			panic("harness: cannot alter " + s.mut)
		}
		b, _ = json.Marshal(x)
		m, err = fcrmessages.FCRMsgFromBytes(b)
		vnode.Must(err)
	}
	good := s.signer == s.by && (s.by == 0 || s.by == 1) && s.mut == ""
	return m, good
}

// there says which CIDs of an offer the node offers it for.
func (w *w10) there(o *cidoffer.CIDOffer) (have, all int, err error) {
	cs := o.GetCIDs()
	for i := range cs {
		l, err := w.Stored(&cs[i])
		if err != nil {
			return 0, 0, err
		}
		want := SubKeyOf(o, &cs[i])
		for j := range l {
			if SubKey(&l[j]) == want {
				have++
				break
			}
		}
		if len(l) > 0 {
			all++
		}
	}
	return have, all, nil
}

// judge compares the store with what should be there.
func (w *w10) judge(desc, key string, offers []*cidoffer.CIDOffer, stored bool) {
	for i, o := range offers {
		have, any, err := w.there(o)
		if err != nil {
			w.T.Violate(key+":lookup", fmt.Sprintf("%s: %v", desc, err), desc)
			return
		}
		if stored && !o.HasExpired() && have != len(o.GetCIDs()) {
			w.T.Violate(key+":not stored", fmt.Sprintf("%s: offer %d was acknowledged but is found for %d of its %d CIDs", desc, i, have, len(o.GetCIDs())), desc)
		}
		if !stored && any > 0 {
			w.T.Violate(key+":stored", fmt.Sprintf("%s: offer %d must not be stored but is found", desc, i), desc)
		}
	}
}

func (w *w10) publish(ms mspec, dht bool, os []ospec) {
	t := w.T
	names := []string{}
	offers := []*cidoffer.CIDOffer{}
	good := true
	for _, s := range os {
		o, ok := w.build(s, ms.by, dht)
		offers = append(offers, o)
		good = good && ok
		names = append(names, s.name)
	}
	nonce := w.Nonce()
	m, mok := w.message(ms, dht, offers, nonce)
	good = good && mok
	kind := "group"
	if dht {
		kind = "DHT"
	}
	desc := fmt.Sprintf("%s publication, message %s, offers [%s]", kind, ms.name, strings.Join(names, ", "))
	key := "c10:" + kind
	t.Case(func() string { return desc })
	t.Eval()
	t.Transition()
	r, err := w.P.Ask(vnode.Bytes(m))
	if err != nil {
		t.Violate(key+":no answer", fmt.Sprintf("%s: %v", desc, err), desc)
		return
	}
	acked := false
	switch {
	case dht && r.GetMessageType() == fcrmessages.ProviderPublishDHTOfferResponseType:
		n, sig, err := fcrmessages.DecodeProviderPublishDHTOfferResponse(r)
		ok := false
		if err == nil {
			ok, err = fcrcrypto.VerifyMessage(w.Me.PubKey, sig, m.GetMessageBody())
		}
		if err != nil || !ok || n != nonce || !w.Me.Signed(r) {
			if good {
				t.Violate(key+":ack", fmt.Sprintf("%s: the acknowledgement is not one of this request (nonce %d, %v, %v)", desc, n, ok, err), desc)
			}
		}
		acked = ok
	case !dht && r.GetMessageType() == fcrmessages.ProviderPublishGroupOfferResponseType:
		id, d, err := fcrmessages.DecodeProviderPublishGroupOfferResponse(r)
		if err != nil || id.ToString() != w.Me.Hex || d != Digest(offers[0]) || !w.Me.Signed(r) {
			t.Violate(key+":ack", fmt.Sprintf("%s: the acknowledgement is not one of this offer (%s, %v)", desc, d, err), desc)
		}
		acked = true
	}
	if acked && !good {
		t.Violate(key+":acknowledged", desc+": must not be acknowledged", desc)
	}
	// a group of one may be refused: it may as well be said to be of the other kind
	if !acked && good && !(!dht && os[0].cids == 1) && !anyPast(os) {
		t.Violate(key+":refused", desc+": is genuine but was refused", desc)
	}
	if good && !acked {
		return
	}
	w.judge(desc, key, offers, good)
	t.Count(map[bool]string{true: "accepted", false: "rejected"}[acked], 1)
	t.Outcome(fmt.Sprintf("%s acknowledged=%v", kind, acked))
	t.State(desc)
	t.Trace()
}

func anyPast(os []ospec) bool {
	for _, o := range os {
		if o.past {
			return true
		}
	}
	return false
}

// sub is one message in a provider's answer to a listing request.
type sub struct {
	ms mspec
	os []ospec
}

// list has the node ask for offers in its range, with provider A answering the given
// messages, the whole signed by someone.
func (w *w10) list(subs []sub, signer int, wrongType bool) {
	t := w.T
	names := []string{}
	type built struct {
		m      *fcrmessages.FCRMessage
		offers []*cidoffer.CIDOffer
		good   bool
		nonce  int64
	}
	var bs []built
	var msgs []fcrmessages.FCRMessage
	for _, s := range subs {
		b := built{good: true, nonce: w.Nonce()}
		on := []string{}
		for _, o := range s.os {
			x, ok := w.build(o, s.ms.by, true)
			b.offers = append(b.offers, x)
			b.good = b.good && ok
			on = append(on, o.name)
		}
		var ok bool
		b.m, ok = w.message(s.ms, true, b.offers, b.nonce)
		// the provider asked is A
		b.good = b.good && ok && s.ms.by == 0
		names = append(names, s.ms.name+"["+strings.Join(on, ", ")+"]")
		bs = append(bs, b)
		msgs = append(msgs, *b.m)
	}
	whole := signer == 0 && !wrongType
	desc := fmt.Sprintf("listing answered by A with {%s}, signed by %d, wrong kind %v", strings.Join(names, "; "), signer, wrongType)
	t.Case(func() string { return desc })
	t.Eval()
	t.Transition()
	acks := make(chan *fcrmessages.FCRMessage, 4)
	asked := make(chan string, 4)
	w.peerA.Script(func(m *fcrmessages.FCRMessage) []byte {
		switch m.GetMessageType() {
		case fcrmessages.GatewayListDHTOfferRequestType:
			id, _, _, _, _, _, _, err := fcrmessages.DecodeGatewayListDHTOfferRequest(m)
			e := ""
			if err != nil || id.ToString() != w.Me.Hex || !w.Me.Signed(m) {
				e = "the listing request is not one of the gateway"
			}
			asked <- e
			r, err := fcrmessages.EncodeGatewayListDHTOfferResponse(msgs)
			if wrongType {
				r, err = fcrmessages.EncodeGatewayListDHTOfferAck(msgs)
			}
			vnode.Must(err)
			if signer >= 0 {
				vnode.Must(r.Sign(w.who[signer].Key, vnode.Ver))
			}
			return vnode.Bytes(r)
		case fcrmessages.GatewayListDHTOfferAckType:
			acks <- m
			return []byte{}
		}
		return nil
	})
	w.peerB.Script(func(m *fcrmessages.FCRMessage) []byte {
		if m.GetMessageType() == fcrmessages.GatewayListDHTOfferRequestType {
			r, err := fcrmessages.EncodeGatewayListDHTOfferResponse(nil)
			return vnode.Bytes(w.b.Sign(r, err))
		}
		return []byte{}
	})
	q, err := fcrmessages.EncodeGatewayAdminListDHTOfferRequest(true)
	rep := vnode.Send(w.Admin, w.Me.Sign(q, err))
	if !w.Me.Signed(rep.Msg()) {
		t.Violate("c10:list:command", desc+": the command failed: "+rep.String(), desc)
		return
	}
	select {
	case e := <-asked:
		if e != "" {
			t.Violate("c10:list:request", desc+": "+e, desc)
			return
		}
	case <-time.After(20 * time.Second):
		t.Violate("c10:list:request", desc+": the gateway does not ask the provider", desc)
		return
	}
	var ack *fcrmessages.FCRMessage
	wait := 20 * time.Second
	if !whole {
		wait = 120 * time.Millisecond
	}
	select {
	case ack = <-acks:
	case <-time.After(wait):
	}
	if !whole {
		if ack != nil {
			t.Violate("c10:list:acknowledged", desc+": an acknowledgement comes for an answer that does not verify", desc)
		}
		for _, b := range bs {
			w.judge(desc, "c10:list", b.offers, false)
		}
		t.Trace()
		return
	}
	if ack == nil {
		t.Violate("c10:list:no ack", desc+": no acknowledgement comes", desc)
		return
	}
	if !w.Me.Signed(ack) {
		t.Violate("c10:list:ack", desc+": the acknowledgements are not signed by the gateway", desc)
		return
	}
	l, err := fcrmessages.DecodeGatewayListDHTOfferAck(ack)
	if err != nil {
		t.Violate("c10:list:ack", desc+": "+err.Error(), desc)
		return
	}
	left := append([]fcrmessages.FCRMessage{}, l...)
	for i, b := range bs {
		got := -1
		for j := range left {
			n, sig, err := fcrmessages.DecodeProviderPublishDHTOfferResponse(&left[j])
			if err != nil {
				continue
			}
			if ok, err := fcrcrypto.VerifyMessage(w.Me.PubKey, sig, b.m.GetMessageBody()); err == nil && ok && n == b.nonce {
				got = j
				break
			}
		}
		if got >= 0 {
			left = append(left[:got], left[got+1:]...)
		}
		if got >= 0 && !b.good {
			t.Violate("c10:list:acknowledged", fmt.Sprintf("%s: message %d must not be acknowledged", desc, i), desc)
		}
		if got < 0 && b.good && len(b.offers) > 0 {
			t.Violate("c10:list:refused", fmt.Sprintf("%s: message %d is genuine but is not acknowledged", desc, i), desc)
		}
		w.judge(desc, "c10:list", b.offers, b.good)
	}
	if len(left) > 0 {
		t.Violate("c10:list:extra", fmt.Sprintf("%s: %d acknowledgements belong to no message", desc, len(left)), desc)
	}
	t.State(desc)
	t.Trace()
}

func c10(t *vh.T, main func()) {
	n := Start(t, main)
	w := &w10{Node: n}
	w.a, w.b = vnode.NewIdent("A", 2, "20"), vnode.NewIdent("B", 3, "21")
	w.x, w.k = vnode.NewIdent("X", 4, "22"), vnode.NewIdent("K", 5, "23")
	w.who = []*vnode.Ident{w.a, w.b, w.x, w.k}
	w.peerA, w.peerB = vnode.NewPeer(w.a), vnode.NewPeer(w.b)
	n.Reg.Provider(w.a, w.peerA.Addr, "127.0.0.1:1")
	n.Reg.Provider(w.b, w.peerB.Addr, "127.0.0.1:1")
	n.Reg.RawProvider(register.ProviderRegister{NodeID: w.k.Hex, Address: "x", RootSigningKey: "zz", SigningKey: "zz", RegionCode: "AU", NetworkInfoGateway: "127.0.0.1:1", NetworkInfoClient: "127.0.0.1:1", NetworkInfoAdmin: "127.0.0.1:1"})
	for i := 0; i < 20; i++ { // a gateway has a range only among enough of them
		n.Reg.Gateway(vnode.NewIdent("gw", 40+i, fmt.Sprintf("%02x", i*12)), "127.0.0.1:1", "127.0.0.1:1", "127.0.0.1:1")
	}
	n.Init()
	t.State("start")

	var messages []mspec
	for by, nm := range []string{"of A", "of B", "of X", "of K"} {
		for s := -1; s < 4; s++ {
			messages = append(messages, mspec{fmt.Sprintf("%s signed by %d", nm, s), by, s, ""})
		}
	}
	messages = append(messages, mspec{"of A with another nonce", 0, 0, "nonce"}, mspec{"of A with an altered signature", 0, 0, "signature"})
	var alpha []ospec
	for _, cids := range []int{1, 2} {
		for by := 0; by < 3; by++ {
			for s := -1; s < 3; s++ {
				alpha = append(alpha, ospec{fmt.Sprintf("%d CIDs of %d signed by %d", cids, by, s), by, s, cids, "", false})
			}
		}
		for _, m := range []string{"price", "expiry", "qos", "cids", "provider", "signature"} {
			alpha = append(alpha, ospec{fmt.Sprintf("%d CIDs altered %s", cids, m), 0, 0, cids, m, false})
		}
		alpha = append(alpha, ospec{fmt.Sprintf("%d CIDs expired", cids), 0, 0, cids, "", true})
	}
	alpha = append(alpha, ospec{"5 CIDs", 0, 0, 5, "", false})
	i := 0
	mine := func() bool { i++; return t.Mine(i) && !t.Over() }
	for _, m := range messages {
		for _, o := range alpha {
			if mine() {
				w.publish(m, false, []ospec{o})
			}
			if mine() {
				w.publish(m, true, []ospec{o})
			}
		}
		if mine() {
			w.publish(m, true, nil)
		}
	}
	// every list of offers over a reduced alphabet
	short := []ospec{
		{"good", 0, 0, 1, "", false}, {"of B", 1, 1, 1, "", false}, {"of A by B", 0, 1, 1, "", false}, {"unsigned", 0, -1, 1, "", false},
		{"altered price", 0, 0, 1, "price", false}, {"group", 0, 0, 2, "", false}, {"expired", 0, 0, 1, "", true},
	}
	depth := t.Pick(4, 5)
	var lists [][]ospec
	var rec func(p []ospec)
	rec = func(p []ospec) {
		if len(p) > 0 {
			lists = append(lists, append([]ospec{}, p...))
		}
		if len(p) == depth {
			return
		}
		for _, o := range short {
			rec(append(p, o))
		}
	}
	rec(nil)
	for _, l := range lists {
		if mine() {
			w.publish(messages[1], true, l)
		}
	}
	// answers to listing requests
	good := mspec{"good", 0, 0, ""}
	var subs []sub
	for _, m := range []mspec{good, {"signed by B", 0, 1, ""}, {"unsigned", 0, -1, ""}, {"of B", 1, 1, ""}, {"of B signed by A", 1, 0, ""}, {"of X", 2, 2, ""}, {"altered", 0, 0, "nonce"}} {
		subs = append(subs, sub{m, []ospec{short[0]}})
	}
	subs = append(subs, sub{mspec{"of B signed by A", 1, 0, ""}, []ospec{short[1]}}, sub{good, nil}, sub{good, []ospec{short[0], short[0]}})
	for _, o := range short[1:] {
		subs = append(subs, sub{good, []ospec{o}}, sub{good, []ospec{short[0], o}}, sub{good, []ospec{o, short[0]}})
	}
	for a := range subs {
		if mine() {
			w.list([]sub{subs[a]}, 0, false)
		}
		for b := range subs {
			if mine() {
				w.list([]sub{subs[a], subs[b]}, 0, false)
			}
			if t.Thorough() || b < 8 {
				for c := range subs {
					if mine() {
						w.list([]sub{subs[a], subs[b], subs[c]}, 0, false)
					}
				}
			}
		}
	}
	for _, s := range []int{-1, 1, 2} {
		if mine() {
			w.list([]sub{subs[0]}, s, false)
		}
	}
	if mine() {
		w.list([]sub{subs[0]}, 0, true)
	}
	if mine() {
		w.list(nil, 0, false)
	}
	if t.Over() {
		t.NotExhaustive("time")
	}
	t.Sample(messages[3].name + " / " + alpha[3].name)
	_ = nodeid.NodeID{}
}
