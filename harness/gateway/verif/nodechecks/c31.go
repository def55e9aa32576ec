//go:build go1.21

package nodechecks

import (
	"encoding/json"
	"fmt"
	"sort"
	"strings"
	"time"

	"github.com/ConsenSys/fc-retrieval/common/pkg/cid"
	"github.com/ConsenSys/fc-retrieval/common/pkg/cidoffer"
	"github.com/ConsenSys/fc-retrieval/common/pkg/fcrmessages"
	"github.com/ConsenSys/fc-retrieval/common/pkg/nodeid"
	"github.com/ConsenSys/fc-retrieval/common/pkg/register"
	"github.com/ConsenSys/fc-retrieval/gateway/internal/core"

	"github.com/ConsenSys/fc-retrieval/common/verif/vh"
	"github.com/ConsenSys/fc-retrieval/common/verif/vnode"
)

func init() { checks["c31"] = c31 }

// world: two identities the node may be given, two providers, and the
// reference state the commands should have produced.
type w31 struct {
	*Node
	ids   [2]*vnode.Ident
	pv    [2]*vnode.Peer
	dummy *vnode.Ident
	asker *vnode.Ident
	gws   []string // hex identifiers of all other gateways
	ev    chan event

	// reference state
	key     int // -1 none
	wallet  bool
	client  *nodeid.NodeID
	rep     int64
	support string
	region  string // what the node should know of the dummy
	regNow  string
	regN    int
	hist    []string
	uniq    int
	wide    bool // enough gateways to have a range
	offer   [2]*cidoffer.CIDOffer
}

type event struct {
	who  int
	kind string
	arg  string
	m    *fcrmessages.FCRMessage
}

func (w *w31) bad(key, why string, r interface{}) {
	w.T.Violate("c31:gateway:"+key, fmt.Sprintf("after %v: %s: %v", w.hist, why, r), w.hist)
}

func (w *w31) node() *vnode.Ident {
	if w.key < 0 {
		return nil
	}
	return w.ids[w.key]
}

// script of a provider
func (w *w31) script(i int) func(m *fcrmessages.FCRMessage) []byte {
	return func(m *fcrmessages.FCRMessage) []byte {
		p := w.pv[i]
		switch m.GetMessageType() {
		case fcrmessages.GatewayNotifyProviderGroupCIDOfferSupportedRequestType:
			id, yes, err := fcrmessages.DecodeGatewayNotifyProviderGroupCIDOfferSupportRequest(m)
			if err != nil {
				w.ev <- event{i, "undecodable notice", err.Error(), m}
				return nil
			}
			w.ev <- event{i, "notice", fmt.Sprint(id.ToString(), " ", yes), m}
			r, err := fcrmessages.EncodeGatewayNotifyProviderGroupCIDOfferSupportResponse(true)
			return vnode.Bytes(p.Sign(r, err))
		case fcrmessages.GatewayListDHTOfferRequestType:
			id, lo, hi, _, _, _, _, err := fcrmessages.DecodeGatewayListDHTOfferRequest(m)
			if err != nil {
				w.ev <- event{i, "undecodable list request", err.Error(), m}
				return nil
			}
			w.ev <- event{i, "list", id.ToString() + " " + lo.ToString() + " " + hi.ToString(), m}
			pub, err := fcrmessages.EncodeProviderPublishDHTOfferRequest(p.ID, 77, []cidoffer.CIDOffer{*w.offer[i]})
			p.Sign(pub, err)
			r, err := fcrmessages.EncodeGatewayListDHTOfferResponse([]fcrmessages.FCRMessage{*pub})
			return vnode.Bytes(p.Sign(r, err))
		case fcrmessages.GatewayListDHTOfferAckType:
			w.ev <- event{i, "ack", "", m}
			return []byte{}
		}
		w.ev <- event{i, "other", fmt.Sprint(m.GetMessageType()), m}
		return nil
	}
}

// expect waits for the given events of the two providers, in any order between them.
func (w *w31) expect(kind string, args [2]string) [2]*fcrmessages.FCRMessage {
	var got [2]*fcrmessages.FCRMessage
	for n := 0; n < 2; n++ {
		select {
		case e := <-w.ev:
			if e.kind != kind || got[e.who] != nil {
				w.bad("told", "unexpected message to provider "+fmt.Sprint(e.who), e.kind+" "+e.arg)
				continue
			}
			got[e.who] = e.m
			if args[e.who] != "" && e.arg != args[e.who] {
				w.bad("told:"+kind, "a provider was told the wrong thing, wanted "+args[e.who], e.arg)
			}
			if !w.node().Signed(e.m) {
				w.bad("told:key", "a provider was told something not signed with the node's key", e.kind+" "+e.arg)
			}
		case <-time.After(20 * time.Second):
			w.bad("told:"+kind, "a provider was not told", kind)
			return got
		}
	}
	return got
}

func (w *w31) quiet() {
	select {
	case e := <-w.ev:
		w.bad("told:uncalled", "a provider was told something although nothing called for it", e.kind+" "+e.arg)
	default:
	}
}

func (w *w31) fresh() *cid.ContentID {
	w.uniq++
	return vnode.CID(fmt.Sprintf("7f%02x", w.T.Shard), w.uniq)
}

// supportNow reads the node's list of supported providers.
func supportNow() string {
	l := []string{}
	for _, x := range core.GetSingleInstance().GroupCIDOfferSupportedForProviders {
		l = append(l, x.ToString()[:4])
	}
	sort.Strings(l)
	return strings.Join(l, ",")
}

// reset takes the node back to before its first command, with a new client.
func (w *w31) reset() {
	c := core.GetSingleInstance()
	c.GatewayID, c.GatewayPrivateKey, c.GatewayPrivateKeyVersion, c.PaymentMgr, c.GroupCIDOfferSupportedForProviders = nil, nil, nil, nil, nil
	w.key, w.wallet, w.support, w.rep, w.hist = -1, false, "", 0, nil
	w.uniq++
	w.client = vnode.NewIdentID(fmt.Sprintf("c0%02x", w.T.Shard), w.uniq)
	w.rep = c.ReputationMgr.ClientEstablishmentChallenge(w.client)
	w.region = w.known()
}

func (w *w31) known() string {
	p := core.GetSingleInstance().RegisterMgr.GetProvider(w.dummy.ID)
	if p == nil {
		return "(unknown)"
	}
	return p.GetRegionCode()
}

// state compares the node's state with the reference.
func (w *w31) state() {
	c := core.GetSingleInstance()
	id, key := "", ""
	if c.GatewayID != nil {
		id = c.GatewayID.ToString()
	}
	if c.GatewayPrivateKey != nil {
		p, err := c.GatewayPrivateKey.EncodePublicKey()
		vnode.Must(err)
		key = p
	}
	wid, wkey := "", ""
	if n := w.node(); n != nil {
		wid, wkey = n.Hex, n.Pub
	}
	if id != wid || key != wkey {
		w.bad("state:key", fmt.Sprintf("the node's identity and key are %q %q, should be %q %q", id, key, wid, wkey), "")
	}
	if (c.PaymentMgr != nil) != w.wallet {
		w.bad("state:wallet", fmt.Sprint("the node has a payment manager: ", c.PaymentMgr != nil), "")
	}
	if r, ok := c.ReputationMgr.GetClientReputation(w.client); !ok || r != w.rep {
		w.bad("state:reputation", fmt.Sprint("the client's reputation is ", r, ok, ", should be ", w.rep), "")
	}
	if w.known() != w.region {
		w.bad("state:register", "the node knows version "+w.known()+" of the register, should know "+w.region, "")
	}
	if s := supportNow(); s != w.support {
		w.bad("state:support", fmt.Sprintf("the node supports %q, should support %q", s, w.support), "")
	}
	w.T.State(fmt.Sprint("k", w.key, " w", w.wallet, " s", w.support, " r", w.rep, " wide", w.wide))
}

// answered takes a reply that should be a success, signed by the node.
func (w *w31) answered(cmd string, r vnode.Reply) *fcrmessages.FCRMessage {
	m := r.Msg()
	if m == nil {
		w.bad("answer:"+cmd, "no answer to a command that can be followed", r)
		return nil
	}
	if !w.node().Signed(m) {
		w.bad("answer:key:"+cmd, "the answer is not signed with the node's key", r)
		return nil
	}
	return m
}

// refused takes a reply that should be a failure: no message of a node without a key can be a success.
func (w *w31) refused(cmd string, r vnode.Reply) {
	if r.Err == nil && r.Status == 200 {
		w.bad("refuse:"+cmd, "a command that cannot be followed is answered as if it had been", r)
	}
}

type cmd31 struct {
	name string
	do   func(w *w31)
}

func (w *w31) initCmd(k int, v2 bool, wallet string) (vnode.Reply, error) {
	i := w.ids[k]
	var m *fcrmessages.FCRMessage
	var err error
	if v2 {
		m, err = fcrmessages.EncodeGatewayAdminInitialiseKeyRequestV2(i.ID, i.Key, vnode.Ver, wallet, "http://lotus/rpc/v0", "token")
	} else {
		m, err = fcrmessages.EncodeGatewayAdminInitialiseKeyRequest(i.ID, i.Key, vnode.Ver)
	}
	vnode.Must(err)
	return vnode.Send(w.Admin, m), nil
}

func initOK(k int, v2 bool) func(w *w31) {
	return func(w *w31) {
		r, _ := w.initCmd(k, v2, w.ids[k].Wallet.Hex)
		w.key = k
		if v2 {
			w.wallet = true
		}
		if m := w.answered("init", r); m != nil {
			ok, err := fcrmessages.DecodeGatewayAdminInitialiseKeyResponse(m)
			if err != nil || !ok {
				w.bad("answer:init", "installing a key is not acknowledged", r)
			}
		}
	}
}

func getRep(known bool) func(w *w31) {
	return func(w *w31) {
		id := w.client
		if !known {
			id = vnode.NewIdentID("ee", 5)
		}
		m, err := fcrmessages.EncodeGatewayAdminGetReputationRequest(id)
		vnode.Must(err)
		r := vnode.Send(w.Admin, m)
		if w.key < 0 {
			w.refused("get reputation", r)
			return
		}
		if m := w.answered("get reputation", r); m != nil {
			i, v, ok, err := fcrmessages.DecodeGatewayAdminGetReputationResponse(m)
			if err != nil || i.ToString() != id.ToString() || ok != known || (known && v != w.rep) {
				w.bad("answer:get reputation", "wrong reputation reported", fmt.Sprint(v, ok, err, " should be ", w.rep, known))
			}
		}
	}
}

func setRep(known bool, v int64) func(w *w31) {
	return func(w *w31) {
		id := w.client
		if !known {
			id = vnode.NewIdentID("ee", 5)
		}
		m, err := fcrmessages.EncodeGatewayAdminSetReputationRequest(id, v)
		vnode.Must(err)
		r := vnode.Send(w.Admin, m)
		if w.key < 0 {
			w.refused("set reputation", r)
			return
		}
		if known {
			w.rep = v
		}
		if m := w.answered("set reputation", r); m != nil {
			i, g, ok, err := fcrmessages.DecodeGatewayAdminSetReputationResponse(m)
			if err != nil || i.ToString() != id.ToString() || ok != known || (known && g != v) {
				w.bad("answer:set reputation", "wrong acknowledgement", fmt.Sprint(g, ok, err, " should be ", v, known))
			}
		}
		if !known && core.GetSingleInstance().ReputationMgr.ClientExists(id) {
			w.bad("state:reputation:new", "setting the reputation of an unknown client made it known", "")
		}
	}
}

func refresh31(yes bool) func(w *w31) {
	return func(w *w31) {
		w.regN++
		w.regNow = fmt.Sprint("R", w.regN)
		w.setRegion()
		m, err := fcrmessages.EncodeGatewayAdminForceRefreshRequest(yes)
		vnode.Must(err)
		r := vnode.Send(w.Admin, m)
		if w.key < 0 {
			w.refused("refresh", r)
			return
		}
		if yes {
			w.region = w.regNow
		}
		if m := w.answered("refresh", r); m != nil {
			ok, err := fcrmessages.DecodeGatewayAdminForceRefreshResponse(m)
			if err != nil || ok != yes {
				w.bad("answer:refresh", "wrong acknowledgement", r)
			}
		}
	}
}

func (w *w31) setRegion() {
	w.Reg.RawProvider(register.ProviderRegister{NodeID: w.dummy.Hex, Address: "t1x", RootSigningKey: w.dummy.Pub, SigningKey: w.dummy.Pub, RegionCode: w.regNow,
		NetworkInfoGateway: "127.0.0.1:1", NetworkInfoClient: "127.0.0.1:1", NetworkInfoAdmin: "127.0.0.1:1"})
}

// cidRange is the span of the 16 nearest other gateways; the identifiers used do not wrap around.
func (w *w31) cidRange() (string, string) {
	l := append([]string{}, w.gws...)
	me := w.node().Hex
	for _, i := range w.ids {
		l = append(l, i.Hex)
	}
	k := 0
	for _, h := range l {
		if h != me {
			l[k] = h
			k++
		}
	}
	l = l[:k]
	sort.Slice(l, func(a, b int) bool { return ringDist(l[a], me) < ringDist(l[b], me) })
	if len(l) > 16 {
		l = l[:16]
	}
	sort.Strings(l)
	return l[0], l[len(l)-1]
}

func list31(yes bool) func(w *w31) {
	return func(w *w31) {
		for i := range w.pv {
			w.offer[i] = w.pv[i].Offer([]*cid.ContentID{w.fresh()}, 9, vnode.Forever, 2)
		}
		m, err := fcrmessages.EncodeGatewayAdminListDHTOfferRequest(yes)
		vnode.Must(err)
		r := vnode.Send(w.Admin, m)
		if w.key < 0 {
			w.refused("list", r)
			w.absent()
			return
		}
		can := yes && w.wide
		if m := w.answered("list", r); m != nil {
			ok, err := fcrmessages.DecodeGatewayAdminListDHTOfferResponse(m)
			if err != nil || ok != can {
				w.bad("answer:list", fmt.Sprintf("asked to list offers (%v, range known: %v), acknowledged %v", yes, w.wide, ok), r)
			}
		}
		if !can {
			w.absent()
			return
		}
		lo, hi := w.cidRange()
		x := w.node().Hex + " " + lo + " " + hi
		// each provider gets a request, then an acknowledgement
		var acks [2]*fcrmessages.FCRMessage
		asked := [2]bool{}
		for n := 0; n < 4; n++ {
			select {
			case e := <-w.ev:
				if !w.node().Signed(e.m) {
					w.bad("told:key", "a provider was told something not signed with the node's key", e.kind)
				}
				switch {
				case e.kind == "list" && !asked[e.who]:
					asked[e.who] = true
					if e.arg != x {
						w.bad("told:list", "a provider was asked for the wrong offers, wanted "+x, e.arg)
					}
				case e.kind == "ack" && asked[e.who] && acks[e.who] == nil:
					acks[e.who] = e.m
				default:
					w.bad("told", "unexpected message to provider "+fmt.Sprint(e.who), e.kind+" "+e.arg)
				}
			case <-time.After(20 * time.Second):
				w.bad("told:list", "asked to list offers, the node did not ask every provider and acknowledge its offers", fmt.Sprint(asked, acks))
				return
			}
		}
		for i := range w.pv {
			l, err := fcrmessages.DecodeGatewayListDHTOfferAck(acks[i])
			if err != nil || len(l) != 1 {
				w.bad("told:ack", "listed offers are not acknowledged one for one", fmt.Sprint(len(l), err))
				continue
			}
			n, _, err := fcrmessages.DecodeProviderPublishDHTOfferResponse(&l[0])
			if err != nil || n != 77 {
				w.bad("told:ack", "a listed offer is acknowledged wrongly", fmt.Sprint(n, err))
			}
			s, err := w.Stored(first(w.offer[i]))
			if err != nil || len(s) != 1 || SubKey(&s[0]) != SubKeyOf(w.offer[i], first(w.offer[i])) {
				w.bad("list:kept", "an offer listed and acknowledged is not served", fmt.Sprint(len(s), err))
			}
		}
	}
}

// absent checks that the offers the providers would have listed are not in the store.
func (w *w31) absent() {
	for i := range w.pv {
		for _, c := range w.offer[i].GetCIDs() {
			l, _ := core.GetSingleInstance().OffersMgr.GetOffers(&c)
			if len(l) != 0 {
				w.bad("list:uncalled", "offers were taken although nothing called for it", "")
			}
		}
	}
}

func support31(which ...int) func(w *w31) {
	return func(w *w31) {
		ids := []nodeid.NodeID{}
		l := []string{}
		yes := [2]bool{}
		for _, i := range which {
			ids = append(ids, *w.pv[i].ID)
			l = append(l, w.pv[i].Hex[:4])
			yes[i] = true
		}
		sort.Strings(l)
		at := w.ids[0].ID
		if w.key >= 0 {
			at = w.node().ID
		}
		m, err := fcrmessages.EncodeUpdateGatewayGroupCIDOfferSupportRequest(at, ids)
		vnode.Must(err)
		r := vnode.Send(w.Admin, m)
		if w.key < 0 {
			w.refused("support", r)
			return
		}
		w.support = strings.Join(l, ",")
		if m := w.answered("support", r); m != nil {
			ok, err := fcrmessages.DecodeUpdateGatewayGroupCIDOfferSupportResponse(m)
			if err != nil || !ok {
				w.bad("answer:support", "wrong acknowledgement", r)
			}
		}
		var a [2]string
		for i := range a {
			a[i] = fmt.Sprint(w.node().Hex, " ", yes[i])
		}
		w.expect("notice", a)
	}
}

// publish: a provider's offer is kept exactly when the node has a key.
func publish31(dht bool) func(w *w31) {
	return func(w *w31) {
		c := w.fresh()
		o := w.pv[0].Offer([]*cid.ContentID{c}, 9, vnode.Forever, 2)
		var m *fcrmessages.FCRMessage
		var err error
		if dht {
			m, err = fcrmessages.EncodeProviderPublishDHTOfferRequest(w.pv[0].ID, 3, []cidoffer.CIDOffer{*o})
		} else {
			m, err = fcrmessages.EncodeProviderPublishGroupOfferRequest(w.pv[0].ID, 3, o)
		}
		r, err := w.P.Ask(vnode.Bytes(w.pv[0].Sign(m, err)))
		if err != nil {
			w.bad("publish", "no answer to a provider's offer", err)
			return
		}
		yes := r.GetMessageType() == fcrmessages.ProviderPublishDHTOfferResponseType || r.GetMessageType() == fcrmessages.ProviderPublishGroupOfferResponseType
		l, _ := core.GetSingleInstance().OffersMgr.GetOffers(c)
		if want := w.key >= 0; yes != want || (len(l) == 1) != want {
			w.bad("publish", fmt.Sprintf("an offer published to a node with a key: %v: answered with an acknowledgement: %v, kept: %v", want, yes, len(l)), r.DumpMessage())
		}
		if w.key >= 0 && !w.node().Signed(r) {
			w.bad("publish:key", "the acknowledgement is not signed with the node's key", r.DumpMessage())
		}
	}
}

// a command that cannot be followed, whatever the state
func broken(name string, f func(w *w31) []byte) cmd31 {
	return cmd31{name, func(w *w31) {
		w.refused(name, vnode.Post(w.Admin, f(w)))
	}}
}

func raw(typ int32, body string) []byte {
	return vnode.Bytes(fcrmessages.CreateFCRMessage(typ, []byte(body)))
}

func first(o *cidoffer.CIDOffer) *cid.ContentID { l := o.GetCIDs(); return &l[0] }

func discover31(w *w31) {
	m, err := fcrmessages.EncodeClientStandardDiscoverRequest(w.fresh(), 5, TTL(), "", "")
	vnode.Must(err)
	r := vnode.Send(w.Rest, m)
	if w.key < 0 {
		w.refused("discovery", r)
		return
	}
	w.answered("discovery", r)
}

func establish31(w *w31) {
	m, err := fcrmessages.EncodeClientEstablishmentRequest(w.client, "hello", TTL())
	vnode.Must(err)
	r := vnode.Send(w.Rest, m)
	if w.key < 0 {
		w.refused("establishment", r)
		return
	}
	w.answered("establishment", r)
}

func gateway31(w *w31) {
	m, err := fcrmessages.EncodeGatewayDHTDiscoverRequest(w.asker.ID, w.fresh(), 5, TTL(), "", "")
	r, err2 := w.G.Ask(vnode.Bytes(w.asker.Sign(m, err)))
	if err2 != nil {
		w.bad("gateway", "no answer to a gateway's request", err2)
		return
	}
	yes := r.GetMessageType() == fcrmessages.GatewayDHTDiscoverResponseType
	if yes != (w.key >= 0) {
		w.bad("gateway", fmt.Sprint("a gateway's request is served: ", yes), r.DumpMessage())
	}
	if yes && !w.node().Signed(r) {
		w.bad("gateway:key", "the answer to a gateway is not signed with the node's key", "")
	}
}

func c31(t *vh.T, main func()) {
	w := &w31{Node: Start(t, main, "REGISTER_REFRESH_DURATION=5h"), key: -1, ev: make(chan event, 1000)}
	t.Assume("between histories the node's key, identity, payment manager and supported providers are cleared in its memory, which stands for restarting it")
	w.ids[0] = w.Me
	w.ids[1] = vnode.NewIdent("second identity", 2, "90")
	for i := range w.pv {
		w.pv[i] = vnode.NewPeer(vnode.NewIdent(fmt.Sprint("provider ", i), 40+i, fmt.Sprintf("b%d", i)))
		w.pv[i].Script(w.script(i))
		w.Reg.Provider(w.pv[i].Ident, w.pv[i].Addr, "127.0.0.1:1")
	}
	w.dummy = vnode.NewIdent("dummy", 60, "bf")
	w.regNow = "R0"
	w.setRegion()

	// Reading the register needs a key, so one is there while it is first read.
	w.Init()
	w.reset()

	cmds := []cmd31{
		{"init A", initOK(0, false)}, {"init B", initOK(1, false)}, {"init A with wallet", initOK(0, true)}, {"init B with wallet", initOK(1, true)},
		broken("init B with a wallet that is no key", func(w *w31) []byte {
			m, err := fcrmessages.EncodeGatewayAdminInitialiseKeyRequestV2(w.ids[1].ID, w.ids[1].Key, vnode.Ver, "zz", "http://lotus/rpc/v0", "token")
			vnode.Must(err)
			return vnode.Bytes(m)
		}),
		{"get reputation", getRep(true)}, {"get reputation of an unknown client", getRep(false)},
		{"set reputation 500", setRep(true, 500)}, {"set reputation -3", setRep(true, -3)}, {"set reputation of an unknown client", setRep(false, 5)},
		{"refresh", refresh31(true)}, {"do not refresh", refresh31(false)},
		{"list", list31(true)}, {"do not list", list31(false)},
		{"support first", support31(0)}, {"support none", support31()}, {"support both", support31(0, 1)},
		{"provider publishes single offer", publish31(true)}, {"provider publishes group offer", publish31(false)},
		{"client discovers", discover31}, {"client establishes", establish31}, {"gateway discovers", gateway31},
	}
	run := func(seq []cmd31) {
		w.reset()
		for _, c := range seq {
			w.hist = append(w.hist, c.name)
			t.Case(func() string { return fmt.Sprint("gateway, commands ", w.hist) })
			c.do(w)
			t.Transition()
			w.state()
		}
		w.quiet()
		t.Eval()
		t.Trace()
		t.Outcome(fmt.Sprint("key ", w.key, ", wallet ", w.wallet, ", supports ", w.support))
	}
	n := 0
	all := func(cmds []cmd31, depth int, pre ...cmd31) {
		var rec func(seq []cmd31)
		rec = func(seq []cmd31) {
			if len(seq) == len(pre)+depth {
				n++
				if t.Mine(n) && !t.Over() {
					run(seq)
				} else if t.Over() {
					t.NotExhaustive("time")
				}
				return
			}
			for _, c := range cmds {
				rec(append(append([]cmd31{}, seq...), c))
			}
		}
		rec(pre)
	}

	// without enough gateways there is no range to ask for
	narrow := []cmd31{}
	for _, c := range cmds {
		if c.name != "gateway discovers" { // no other gateway is known yet
			narrow = append(narrow, c)
		}
	}
	all(narrow, 2)
	for i := 0; i < 18; i++ {
		p := vnode.NewIdent("peer", 100+i, fmt.Sprintf("%02x", 0x40+i*4+1))
		w.gws = append(w.gws, p.Hex)
		w.asker = p
		w.Reg.Gateway(p, "127.0.0.1:1", "127.0.0.1:1", "127.0.0.1:1")
	}
	w.Reg.Gateway(w.ids[1], "127.0.0.1:1", "127.0.0.1:1", "127.0.0.1:1")
	w.reset()
	w.Init()
	w.wide = true
	w.reset()
	all(cmds, t.Pick(3, 4))

	// commands that are no commands, before and after the key
	bodies := map[string]string{"nothing": "", "null": "null", "a list": "[]", "a number": "7", "a piece": "{\"gateway_id\":", "a text": "\"x\""}
	odd := []cmd31{}
	types := map[string]int32{
		"init": fcrmessages.GatewayAdminInitialiseKeyRequestType, "init V2": fcrmessages.GatewayAdminInitialiseKeyRequestV2Type,
		"get reputation": fcrmessages.GatewayAdminGetReputationRequestType, "set reputation": fcrmessages.GatewayAdminSetReputationRequestType,
		"refresh": fcrmessages.GatewayAdminForceRefreshRequestType, "list": fcrmessages.GatewayAdminListDHTOfferRequestType,
		"support": fcrmessages.GatewayAdminUpdateGatewayGroupCIDOfferSupportRequestType,
		"unknown": 99999, "provider's init": fcrmessages.ProviderAdminInitialiseKeyRequestType, "reply": fcrmessages.GatewayAdminInitialiseKeyResponseType,
		"client's": fcrmessages.ClientStandardDiscoverRequestType,
	}
	for tn, ty := range types {
		for bn, b := range bodies {
			if bn == "null" {
				continue // JSON has null stand for every field left out
			}
			ty, b := ty, b
			odd = append(odd, broken(tn+" with a body that is "+bn, func(w *w31) []byte { return raw(ty, b) }))
		}
	}
	for _, wk := range []string{"", "00", strings.Repeat("ff", 32), strings.Repeat("11", 33)} {
		wk := wk
		odd = append(odd, broken(fmt.Sprintf("init with the wallet key %q", wk), func(w *w31) []byte {
			m, err := fcrmessages.EncodeGatewayAdminInitialiseKeyRequestV2(w.ids[1].ID, w.ids[1].Key, vnode.Ver, wk, "http://lotus/rpc/v0", "token")
			vnode.Must(err)
			return vnode.Bytes(m)
		}))
	}
	good := func(m *fcrmessages.FCRMessage, err error) []byte { vnode.Must(err); return m.GetMessageBody() }
	i1 := good(fcrmessages.EncodeGatewayAdminInitialiseKeyRequest(w.ids[1].ID, w.ids[1].Key, vnode.Ver))
	i2 := good(fcrmessages.EncodeGatewayAdminInitialiseKeyRequestV2(w.ids[1].ID, w.ids[1].Key, vnode.Ver, w.ids[1].Wallet.Hex, "http://lotus/rpc/v0", "token"))
	sr := good(fcrmessages.EncodeGatewayAdminSetReputationRequest(w.client, 77))
	su := good(fcrmessages.EncodeUpdateGatewayGroupCIDOfferSupportRequest(w.ids[0].ID, []nodeid.NodeID{*w.pv[0].ID}))
	rf := good(fcrmessages.EncodeGatewayAdminForceRefreshRequest(true))
	li := good(fcrmessages.EncodeGatewayAdminListDHTOfferRequest(true))
	gr := good(fcrmessages.EncodeGatewayAdminGetReputationRequest(w.client))
	for _, b := range []struct {
		name string
		ty   int32
		body []byte
		ids  bool
	}{
		{"init", fcrmessages.GatewayAdminInitialiseKeyRequestType, i1, true}, {"init V2", fcrmessages.GatewayAdminInitialiseKeyRequestV2Type, i2, true},
		{"set reputation", fcrmessages.GatewayAdminSetReputationRequestType, sr, false}, {"support", fcrmessages.GatewayAdminUpdateGatewayGroupCIDOfferSupportRequestType, su, false},
		{"refresh", fcrmessages.GatewayAdminForceRefreshRequestType, rf, false}, {"list", fcrmessages.GatewayAdminListDHTOfferRequestType, li, false},
		{"get reputation", fcrmessages.GatewayAdminGetReputationRequestType, gr, false},
	} {
		b := b
		for f, v := range object(b.body) {
			f := f
			vals := map[string]string{"another kind of thing": `{"a":[1]}`}
			if v[0] == '"' && !strings.HasPrefix(f, "lotus") {
				vals["no hex"] = `"zz"`
			}
			if b.ids && (strings.Contains(f, "private_key") && !strings.Contains(f, "version")) {
				vals["empty"] = `""`
				if !strings.Contains(f, "wallet") {
					vals["short"] = `"01ab"`
				}
			}
			for vn, val := range vals {
				body := setField(b.body, f, json.RawMessage(val))
				odd = append(odd, broken(b.name+" whose "+f+" is "+vn, func(w *w31) []byte { return raw(b.ty, string(body)) }))
			}
		}
	}
	for bn, b := range map[string]string{"nothing": "", "a list": "[]", "half": "{\"message_type\":"} {
		b := b
		odd = append(odd, broken("a message that is "+bn, func(w *w31) []byte { return []byte(b) }))
	}
	sort.Slice(odd, func(a, b int) bool { return odd[a].name < odd[b].name })
	for _, pre := range [][]cmd31{{}, {cmds[0]}, {cmds[2], cmds[7], cmds[14]}} {
		for _, post := range [][]cmd31{{}, {cmds[1], cmds[5]}} {
			for _, o := range odd {
				n++
				if t.Mine(n) {
					run(append(append(append([]cmd31{}, pre...), o), post...))
				}
			}
		}
	}
	// after everything, nothing more arrives
	time.Sleep(200 * time.Millisecond)
	w.quiet()
}
