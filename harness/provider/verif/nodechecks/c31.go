//go:build go1.21

package nodechecks

import (
	"encoding/json"
	"fmt"
	"sort"
	"strings"

	"github.com/ConsenSys/fc-retrieval/common/pkg/cid"
	"github.com/ConsenSys/fc-retrieval/common/pkg/cidoffer"
	"github.com/ConsenSys/fc-retrieval/common/pkg/fcrcrypto"
	"github.com/ConsenSys/fc-retrieval/common/pkg/fcrmessages"
	"github.com/ConsenSys/fc-retrieval/common/pkg/nodeid"
	"github.com/ConsenSys/fc-retrieval/provider/internal/core"

	"github.com/ConsenSys/fc-retrieval/common/verif/vh"
	"github.com/ConsenSys/fc-retrieval/common/verif/vnode"
)

func init() { checks["c31"] = c31 }

// world: two identities the provider may be given, three gateways of which the
// register knows a changing set, and the state the commands should have produced.
type w31 struct {
	*Node
	ids  [2]*vnode.Ident
	gw   [3]*vnode.Peer
	conn *vnode.P2P // gateway 0's own connection to the provider
	uniq int
	hist []string
	seen map[string]int // publications that reached the gateways

	key    int
	wallet bool
	reg    int // what the register has of gateway 2: 0 nothing, 1 registered
	known  int // what the provider has read
	stored map[string]bool
	sent   [3]map[string]bool
	acked  map[string][3]bool // single CID -> who acknowledged
	last   *cid.ContentID
	lastID string
}

type cmd31 struct {
	name string
	do   func(w *w31)
}

func (w *w31) bad(key, why string, r interface{}) {
	w.T.Violate("c31:provider:"+key, fmt.Sprintf("after %v: %s: %v", w.hist, why, r), w.hist)
}

func (w *w31) fresh() *cid.ContentID {
	w.uniq++
	return vnode.CID(fmt.Sprintf("5a%02x", w.T.Shard), w.uniq)
}

func (w *w31) me() *vnode.Ident {
	if w.key < 0 {
		return nil
	}
	return w.ids[w.key]
}

// script of a gateway: it acknowledges what the provider's key signed
func (w *w31) script(i int) func(m *fcrmessages.FCRMessage) []byte {
	return func(m *fcrmessages.FCRMessage) []byte {
		g := w.gw[i]
		if w.me() == nil || !w.me().Signed(m) {
			w.bad("published:key", "a publication is not signed with the provider's present key", m.DumpMessage())
			return nil
		}
		switch m.GetMessageType() {
		case fcrmessages.ProviderPublishDHTOfferRequestType:
			id, n, offers, err := fcrmessages.DecodeProviderPublishDHTOfferRequest(m)
			if err != nil || id.ToString() != w.me().Hex {
				w.bad("published", "a publication cannot be read, or is another's", err)
				return nil
			}
			for k := range offers {
				w.seen[fmt.Sprint(i, " ", Offer(&offers[k]))]++
			}
			sig, err := fcrcrypto.SignMessage(g.Key, vnode.Ver, m.GetMessageBody())
			vnode.Must(err)
			r, err := fcrmessages.EncodeProviderPublishDHTOfferResponse(n, sig)
			return vnode.Bytes(g.Sign(r, err))
		case fcrmessages.ProviderPublishGroupOfferRequestType:
			id, _, off, err := fcrmessages.DecodeProviderPublishGroupOfferRequest(m)
			if err != nil || id.ToString() != w.me().Hex {
				w.bad("published", "a publication cannot be read, or is another's", err)
				return nil
			}
			w.seen[fmt.Sprint(i, " ", Offer(off))]++
			r, err := fcrmessages.EncodeProviderPublishGroupOfferResponse(*g.ID, cidoffer.EncodeMessageDigest(off.GetMessageDigest()))
			return vnode.Bytes(g.Sign(r, err))
		}
		w.bad("published", "an unexpected message to a gateway", m.GetMessageType())
		return nil
	}
}

// refused says whether a command was turned down.
func refused(r vnode.Reply) bool { return r.Status >= 400 && r.Status < 600 }

func (w *w31) want(r vnode.Reply, what string, dec func(m *fcrmessages.FCRMessage) (bool, error)) {
	m := r.Msg()
	if m == nil || !w.me().Signed(m) {
		w.bad("reply:"+what, "not answered with the provider's key", r)
		return
	}
	if ok, err := dec(m); err != nil || !ok {
		w.bad("reply:"+what, fmt.Sprint("not acknowledged: ", ok, " ", err), r)
	}
}

// knows is which gateways the provider has read of.
func (w *w31) knows(i int) bool { return i < 2 || w.known == 1 }

func init31(i int, wallet bool) cmd31 {
	name := fmt.Sprint("init ", "AB"[i:i+1])
	if wallet {
		name += " with wallet"
	}
	return cmd31{name, func(w *w31) {
		id := w.ids[i]
		var m *fcrmessages.FCRMessage
		var err error
		if wallet {
			m, err = fcrmessages.EncodeProviderAdminInitialiseKeyRequestV2(id.ID, id.Key, vnode.Ver, id.Wallet.Hex, "http://lotus/rpc/v0", "token")
			w.wallet = true
		} else {
			m, err = fcrmessages.EncodeProviderAdminInitialiseKeyRequest(id.ID, id.Key, vnode.Ver)
		}
		vnode.Must(err)
		w.key = i
		w.want(vnode.Send(w.Admin, m), "init", fcrmessages.DecodeProviderAdminInitialiseKeyResponse)
	}}
}

// broken is a command that must be refused and change nothing.
func broken(name string, body func(w *w31) []byte) cmd31 {
	return cmd31{name, func(w *w31) {
		r := vnode.Post(w.Admin, body(w))
		if !refused(r) {
			w.bad("accepted", "a command that cannot be obeyed is not refused", r)
		}
	}}
}

func raw(ty int32, body string) []byte {
	return vnode.Bytes(fcrmessages.CreateFCRMessage(ty, []byte(body)))
}

// keyed is a command that needs a key.
func keyed(name string, enc func(w *w31) (*fcrmessages.FCRMessage, error), do func(w *w31, r vnode.Reply)) cmd31 {
	return cmd31{name, func(w *w31) {
		m, err := enc(w)
		vnode.Must(err)
		r := vnode.Send(w.Admin, m)
		if w.key < 0 {
			if !refused(r) {
				w.bad("before", "a command is not refused before there is a key", r)
			}
			return
		}
		do(w, r)
	}}
}

func refresh31(yes bool) cmd31 {
	return keyed(fmt.Sprint("refresh ", yes), func(w *w31) (*fcrmessages.FCRMessage, error) {
		return fcrmessages.EncodeProviderAdminForceRefreshRequest(yes)
	}, func(w *w31, r vnode.Reply) {
		w.want(r, "refresh", func(m *fcrmessages.FCRMessage) (bool, error) {
			did, err := fcrmessages.DecodeProviderAdminForceRefreshResponse(m)
			return did == yes, err
		})
		if yes {
			w.known = w.reg
		}
	})
}

func (w *w31) took(o *cidoffer.CIDOffer, single bool) {
	s := Offer(o)
	w.stored[s] = true
	c := first(o)
	a := w.acked[c.ToString()]
	for i := range w.gw {
		k := fmt.Sprint(i, " ", s)
		if w.knows(i) {
			if w.seen[k] == 0 {
				w.bad("published:not", fmt.Sprint("gateway ", i, " did not get the offer"), s)
			}
			w.sent[i][s] = true
			a[i] = true
		} else if w.seen[k] != 0 {
			w.bad("published:unasked", fmt.Sprint("gateway ", i, ", unknown to the provider, got the offer"), s)
		}
		delete(w.seen, k)
	}
	if single {
		w.acked[c.ToString()] = a
		w.last = c
		w.lastID = w.me().Hex
	}
	if len(w.seen) > 0 {
		w.bad("published:other", "a gateway was given something that was not to be published", w.seen)
		w.seen = map[string]int{}
	}
}

func dht31(n int) cmd31 {
	var cs []cid.ContentID
	var pr, qo []uint64
	var ex []int64
	return keyed(fmt.Sprint("publish ", n, " single"), func(w *w31) (*fcrmessages.FCRMessage, error) {
		cs, pr, qo, ex = nil, nil, nil, nil
		for i := 0; i < n; i++ {
			cs, pr, ex, qo = append(cs, *w.fresh()), append(pr, uint64(10+i)), append(ex, vnode.Forever-int64(i)), append(qo, uint64(3+i))
		}
		return fcrmessages.EncodeProviderAdminPublishDHTOfferRequest(cs, pr, ex, qo)
	}, func(w *w31, r vnode.Reply) {
		w.want(r, "publish", fcrmessages.DecodeProviderAdminPublishDHTOfferResponse)
		l := []*cidoffer.CIDOffer{}
		seen := w.seen
		for i := range cs {
			l = append(l, w.me().Offer([]*cid.ContentID{&cs[i]}, pr[i], ex[i], qo[i]))
		}
		for _, o := range l { // each on its own
			w.seen = map[string]int{}
			for i := range w.gw {
				k := fmt.Sprint(i, " ", Offer(o))
				if seen[k] > 0 {
					w.seen[k] = seen[k]
					delete(seen, k)
				}
			}
			w.took(o, true)
		}
		w.seen = seen
		if len(seen) > 0 {
			w.bad("published:other", "a gateway was given something that was not to be published", seen)
			w.seen = map[string]int{}
		}
	})
}

func group31(n int) cmd31 {
	var cs []cid.ContentID
	return keyed(fmt.Sprint("publish a group of ", n), func(w *w31) (*fcrmessages.FCRMessage, error) {
		cs = nil
		for i := 0; i < n; i++ {
			cs = append(cs, *w.fresh())
		}
		return fcrmessages.EncodeProviderAdminPublishGroupOfferRequest(cs, 20, vnode.Forever, 5)
	}, func(w *w31, r vnode.Reply) {
		if n < 2 {
			if !refused(r) {
				w.bad("accepted", "a group offer of fewer than two is not refused", r)
			}
			if len(w.seen) > 0 {
				w.bad("published:other", "a refused offer was published", w.seen)
				w.seen = map[string]int{}
			}
			return
		}
		w.want(r, "publish group", fcrmessages.DecodeProviderAdminPublishGroupOfferResponse)
		p := []*cid.ContentID{}
		for i := range cs {
			p = append(p, &cs[i])
		}
		w.took(w.me().Offer(p, 20, vnode.Forever, 5), false)
	})
}

func get31(who ...int) cmd31 {
	return keyed(fmt.Sprint("get published ", who), func(w *w31) (*fcrmessages.FCRMessage, error) {
		l := []nodeid.NodeID{}
		for _, i := range who {
			if i > 2 {
				l = append(l, *w.ids[1].ID)
			} else {
				l = append(l, *w.gw[i].ID)
			}
		}
		return fcrmessages.EncodeProviderAdminGetPublishedOfferRequest(l)
	}, func(w *w31, r vnode.Reply) { w.published(r, who...) })
}

func (w *w31) published(r vnode.Reply, who ...int) {
	w.want(r, "get published", func(m *fcrmessages.FCRMessage) (bool, error) {
		found, l, err := fcrmessages.DecodeProviderAdminGetPublishedOfferResponse(m)
		if err != nil {
			return false, err
		}
		if len(who) == 0 {
			who = []int{0, 1, 2}
		}
		want := map[string]bool{}
		for _, i := range who {
			if i < 3 {
				for o := range w.sent[i] {
					want[o] = true
				}
			}
		}
		got := map[string]bool{}
		for i := range l {
			got[Offer(&l[i])] = true
		}
		if found != (len(want) > 0) {
			return false, fmt.Errorf("found %v", found)
		}
		for o := range got {
			if !want[o] {
				return false, fmt.Errorf("reports %s", o)
			}
		}
		for o := range want {
			if !got[o] {
				return false, fmt.Errorf("does not report %s", o)
			}
		}
		return true, nil
	})
}

// what others may ask; before there is a key they are refused and nothing breaks.
func ack31(w *w31) {
	c := w.last
	if c == nil {
		c = vnode.CID("00", 1)
	}
	for i := range w.gw {
		m, err := fcrmessages.EncodeClientDHTOfferAckRequest(c, w.gw[i].ID)
		vnode.Must(err)
		r := vnode.Send(w.Rest, m)
		if w.key < 0 {
			if !refused(r) {
				w.bad("before", "a client is answered before there is a key", r)
			}
			continue
		}
		w.want(r, "client", func(m *fcrmessages.FCRMessage) (bool, error) {
			_, _, found, _, _, err := fcrmessages.DecodeClientDHTOfferAckResponse(m)
			return found == (w.last != nil && w.acked[c.ToString()][i]), err
		})
	}
}

func list31(w *w31) {
	g := w.gw[0]
	m, err := fcrmessages.EncodeGatewayListDHTOfferRequest(g.ID, vnode.CID("00", 0), vnode.CID("ff", 0), "a", "b", "c", proof())
	r, err := w.conn.Ask(vnode.Bytes(g.Sign(m, err)))
	if err != nil {
		w.bad("list", "a gateway is not answered", err)
		return
	}
	if w.key < 0 || !w.gotReg() {
		if _, err := fcrmessages.DecodeGatewayListDHTOfferResponse(r); err == nil {
			w.bad("before", "a gateway is given offers before there is a key", r.DumpMessage())
		}
		return
	}
	msgs, err := fcrmessages.DecodeGatewayListDHTOfferResponse(r)
	if err != nil || !w.me().Signed(r) {
		w.bad("list", "a gateway that asks for offers is refused", r.DumpMessage())
		return
	}
	got := map[string]bool{}
	for k := range msgs {
		_, _, l, err := fcrmessages.DecodeProviderPublishDHTOfferRequest(&msgs[k])
		if err != nil || !w.me().Signed(&msgs[k]) {
			w.bad("list", "a listed message cannot be believed", err)
		}
		for x := range l {
			got[Offer(&l[x])] = true
		}
	}
	w.same("list", got, true)
	// it hangs up instead of acknowledging
	w.conn.Close()
}

// gotReg: the provider discovers an asking gateway in the register by itself.
func (w *w31) gotReg() bool { return true }

func (w *w31) same(key string, got map[string]bool, single bool) {
	for o := range w.stored {
		var x cidoffer.CIDOffer
		vnode.Must(json.Unmarshal([]byte(o), &x))
		if single && len(x.GetCIDs()) != 1 {
			continue
		}
		if !got[o] {
			w.bad(key+":lost", "an offer that was to be published is missing", o)
		}
		delete(got, o)
	}
	for o := range got {
		w.bad(key+":other", "an offer nobody had published is there", o)
	}
}

func notice31(w *w31) {
	g := w.gw[1]
	m, err := fcrmessages.EncodeGatewayNotifyProviderGroupCIDOfferSupportRequest(g.ID, true)
	r, err := w.conn.Ask(vnode.Bytes(g.Sign(m, err)))
	if err != nil {
		w.bad("notice", "a gateway is not answered", err)
		return
	}
	ok, derr := fcrmessages.DecodeGatewayNotifyProviderGroupCIDOfferSupportResponse(r)
	if w.key < 0 {
		if derr == nil && ok {
			w.bad("before", "a gateway's notice is acknowledged before there is a key", r.DumpMessage())
		}
		return
	}
	if derr != nil || !ok || !w.me().Signed(r) {
		w.bad("notice", fmt.Sprint("a gateway's notice is not acknowledged: ", derr), r.DumpMessage())
	}
}

// state compares all there is with what there should be.
func (w *w31) state() {
	c := core.GetSingleInstance()
	if (c.ProviderPrivateKey != nil) != (w.key >= 0) || (c.ProviderID != nil) != (w.key >= 0) || w.key >= 0 && c.ProviderID.ToString() != w.me().Hex {
		w.bad("state:key", "the provider's identity is not the one last installed", fmt.Sprint(c.ProviderID))
	}
	if (c.PaymentMgr != nil) != w.wallet {
		w.bad("state:wallet", "a wallet is there", c.PaymentMgr != nil)
	}
	l, _ := c.OffersMgr.GetDHTOffersWithinRange(vnode.CID("00", 0), vnode.CID("ff", 0), 500)
	got := map[string]bool{}
	for i := range l {
		got[Offer(&l[i])] = true
	}
	w.same("state", got, true)
	m, err := fcrmessages.EncodeProviderAdminGetPublishedOfferRequest(nil)
	vnode.Must(err)
	r := vnode.Send(w.Admin, m)
	if w.key < 0 {
		if !refused(r) {
			w.bad("before", "published offers are reported before there is a key", r)
		}
	} else {
		w.published(r)
	}
	if len(w.seen) > 0 {
		w.bad("published:other", "a gateway was given something that was not to be published", w.seen)
		w.seen = map[string]int{}
	}
	w.T.State(fmt.Sprint("provider ", w.key, w.wallet, w.known, len(w.stored), len(w.sent[0]), len(w.sent[1]), len(w.sent[2]), w.lastID))
}

// reset restarts the node and takes the register back.
func (w *w31) reset() {
	w.Clear()
	w.hist, w.seen = nil, map[string]int{}
	w.key, w.wallet, w.last, w.lastID = -1, false, nil, ""
	w.stored, w.acked = map[string]bool{}, map[string][3]bool{}
	for i := range w.sent {
		w.sent[i] = map[string]bool{}
	}
}

func c31(t *vh.T, main func()) {
	w := &w31{Node: Start(t, main), key: -1}
	t.Assume("between histories the provider's key, identity, store and records are cleared in its memory, which stands for restarting it")
	w.ids[0] = w.Me
	w.ids[1] = vnode.NewIdent("second identity", 2, "90")
	for i := range w.gw {
		w.gw[i] = vnode.NewPeer(vnode.NewIdent(fmt.Sprint("gateway ", i), 40+i, fmt.Sprintf("4%d", i)))
		w.gw[i].Script(w.script(i))
		if i < 2 {
			w.Reg.Gateway(w.gw[i].Ident, w.gw[i].Addr, w.gw[i].Addr, "127.0.0.1:1")
		}
	}
	w.conn = &vnode.P2P{Port: w.Gw}
	w.reset()
	w.Init()
	w.Refresh()
	w.reset()

	cmds := []cmd31{
		init31(0, false), init31(1, false), init31(0, true), init31(1, true),
		broken("init B with a wallet that is no key", func(w *w31) []byte {
			m, err := fcrmessages.EncodeProviderAdminInitialiseKeyRequestV2(w.ids[1].ID, w.ids[1].Key, vnode.Ver, "zz", "http://lotus/rpc/v0", "token")
			vnode.Must(err)
			return vnode.Bytes(m)
		}),
		refresh31(true), refresh31(false),
		dht31(1), dht31(2), group31(2), group31(1), group31(0),
		get31(), get31(0), get31(2), get31(9), get31(0, 9),
		{"client asks", ack31}, {"gateway lists", list31}, {"gateway notifies", notice31},
	}
	run := func(seq []cmd31) {
		w.reset()
		for _, c := range seq {
			w.hist = append(w.hist, c.name)
			t.Case(func() string { return fmt.Sprint("provider, commands ", w.hist) })
			c.do(w)
			t.Transition()
			w.state()
		}
		t.Eval()
		t.Trace()
		t.Outcome(fmt.Sprint("key ", w.key, ", wallet ", w.wallet, ", offers ", len(w.stored)))
	}
	n := 0
	all := func(depth int) {
		var rec func(seq []cmd31)
		rec = func(seq []cmd31) {
			if len(seq) == depth {
				n++
				if t.Mine(n) && !t.Over() {
					run(seq)
				} else if t.Over() {
					t.NotExhaustive("time")
				}
				return
			}
			for _, c := range cmds {
				rec(append(append([]cmd31{}, seq...), c))
			}
		}
		rec(nil)
	}
	all(t.Pick(3, 4))

	// a gateway that registers is published to once the register is read again
	w.Reg.Gateway(w.gw[2].Ident, w.gw[2].Addr, w.gw[2].Addr, "127.0.0.1:1")
	w.reset()
	w.Init()
	w.reg = 1
	w.Refresh()
	w.known = 1
	w.reset()
	all(2)

	// commands that are no commands
	bodies := map[string]string{"nothing": "", "a list": "[]", "a number": "7", "a piece": "{\"provider_id\":", "a text": "\"x\""}
	odd := []cmd31{}
	for tn, ty := range map[string]int32{
		"init": fcrmessages.ProviderAdminInitialiseKeyRequestType, "init V2": fcrmessages.ProviderAdminInitialiseKeyRequestV2Type,
		"publish": fcrmessages.ProviderAdminPublishDHTOfferRequestType, "publish group": fcrmessages.ProviderAdminPublishGroupOfferRequestType,
		"get published": fcrmessages.ProviderAdminGetPublishedOfferRequestType, "refresh": fcrmessages.ProviderAdminForceRefreshRequestType,
		"unknown": 99999, "gateway's init": fcrmessages.GatewayAdminInitialiseKeyRequestType, "reply": fcrmessages.ProviderAdminInitialiseKeyResponseType,
		"client's": fcrmessages.ClientDHTOfferAckRequestType,
	} {
		for bn, b := range bodies {
			ty, b := ty, b
			odd = append(odd, broken(tn+" with a body that is "+bn, func(w *w31) []byte { return raw(ty, b) }))
		}
	}
	for _, wk := range []string{"", "00", strings.Repeat("ff", 32), strings.Repeat("11", 33)} {
		wk := wk
		odd = append(odd, broken(fmt.Sprintf("init with the wallet key %q", wk), func(w *w31) []byte {
			m, err := fcrmessages.EncodeProviderAdminInitialiseKeyRequestV2(w.ids[1].ID, w.ids[1].Key, vnode.Ver, wk, "http://lotus/rpc/v0", "token")
			vnode.Must(err)
			return vnode.Bytes(m)
		}))
	}
	body := func(m *fcrmessages.FCRMessage, err error) []byte { vnode.Must(err); return m.GetMessageBody() }
	one := []cid.ContentID{*vnode.CID("5b", 1)}
	for _, b := range []struct {
		name string
		ty   int32
		body []byte
		ids  bool
	}{
		{"init", fcrmessages.ProviderAdminInitialiseKeyRequestType, body(fcrmessages.EncodeProviderAdminInitialiseKeyRequest(w.ids[1].ID, w.ids[1].Key, vnode.Ver)), true},
		{"init V2", fcrmessages.ProviderAdminInitialiseKeyRequestV2Type, body(fcrmessages.EncodeProviderAdminInitialiseKeyRequestV2(w.ids[1].ID, w.ids[1].Key, vnode.Ver, w.ids[1].Wallet.Hex, "http://lotus/rpc/v0", "token")), true},
		{"publish", fcrmessages.ProviderAdminPublishDHTOfferRequestType, body(fcrmessages.EncodeProviderAdminPublishDHTOfferRequest(one, []uint64{1}, []int64{vnode.Forever}, []uint64{2})), false},
		{"publish group", fcrmessages.ProviderAdminPublishGroupOfferRequestType, body(fcrmessages.EncodeProviderAdminPublishGroupOfferRequest([]cid.ContentID{one[0], *vnode.CID("5b", 2)}, 1, vnode.Forever, 2)), false},
		{"get published", fcrmessages.ProviderAdminGetPublishedOfferRequestType, body(fcrmessages.EncodeProviderAdminGetPublishedOfferRequest([]nodeid.NodeID{*w.gw[0].ID})), false},
		{"refresh", fcrmessages.ProviderAdminForceRefreshRequestType, body(fcrmessages.EncodeProviderAdminForceRefreshRequest(true)), false},
	} {
		b := b
		fields := map[string]json.RawMessage{}
		vnode.Must(json.Unmarshal(b.body, &fields))
		for f, v := range fields {
			vals := map[string]string{"another kind of thing": `{"a":[1]}`}
			if v[0] == '"' && !strings.HasPrefix(f, "lotus") {
				vals["no hex"] = `"zz"`
			}
			if b.ids && strings.Contains(f, "private_key") && !strings.Contains(f, "version") {
				vals["empty"] = `""`
			}
			if b.name == "publish" {
				vals["none"], vals["one too many"] = "[]", ""
				var l []json.RawMessage
				vnode.Must(json.Unmarshal(v, &l))
				x, err := json.Marshal(append(l, l[0]))
				vnode.Must(err)
				vals["one too many"] = string(x)
			}
			for vn, val := range vals {
				m := map[string]json.RawMessage{}
				for k, x := range fields {
					m[k] = x
				}
				m[f] = json.RawMessage(val)
				x, err := json.Marshal(m)
				vnode.Must(err)
				odd = append(odd, broken(b.name+" whose "+f+" is "+vn, func(w *w31) []byte { return raw(b.ty, string(x)) }))
			}
		}
	}
	expired := func(e ...int64) func(w *w31) []byte {
		return func(w *w31) []byte {
			cs, pr := []cid.ContentID{}, []uint64{}
			for range e {
				cs, pr = append(cs, *w.fresh()), append(pr, 1)
			}
			m, err := fcrmessages.EncodeProviderAdminPublishDHTOfferRequest(cs, pr, e, pr)
			vnode.Must(err)
			return vnode.Bytes(m)
		}
	}
	odd = append(odd, broken("publish an expired offer", expired(1000)), broken("publish expired offers", expired(1000, 1001)),
		broken("publish an expired offer, then another", expired(1000, vnode.Forever)), broken("publish an offer and an expired one", expired(vnode.Forever, 1000)),
		broken("publish an expired group offer", func(w *w31) []byte {
			m, err := fcrmessages.EncodeProviderAdminPublishGroupOfferRequest([]cid.ContentID{*w.fresh(), *w.fresh()}, 1, 1000, 2)
			vnode.Must(err)
			return vnode.Bytes(m)
		}))
	for bn, b := range map[string]string{"nothing": "", "a list": "[]", "half": "{\"message_type\":"} {
		b := b
		odd = append(odd, broken("a message that is "+bn, func(w *w31) []byte { return []byte(b) }))
	}
	sort.Slice(odd, func(a, b int) bool { return odd[a].name < odd[b].name })
	t.Note("commands", len(cmds))
	t.Note("commands that must be refused", len(odd))
	for _, pre := range [][]cmd31{{}, {cmds[0]}, {cmds[2], cmds[7], cmds[9]}} {
		for _, post := range [][]cmd31{{}, {cmds[1], cmds[8]}} {
			for _, o := range odd {
				n++
				if t.Mine(n) {
					run(append(append(append([]cmd31{}, pre...), o), post...))
				}
			}
		}
	}
}
