//go:build go1.21

package nodechecks

import (
	"fmt"
	"math"
	"sort"
	"strings"
	"time"

	"github.com/ConsenSys/fc-retrieval/common/pkg/cid"
	"github.com/ConsenSys/fc-retrieval/common/pkg/cidoffer"
	"github.com/ConsenSys/fc-retrieval/common/pkg/fcrcrypto"
	m "github.com/ConsenSys/fc-retrieval/common/pkg/fcrmessages"
	"github.com/ConsenSys/fc-retrieval/common/pkg/register"

	"github.com/ConsenSys/fc-retrieval/common/verif/vh"
	"github.com/ConsenSys/fc-retrieval/common/verif/vnode"
)

func init() { checks["c32"] = c32 }

type mm = *m.FCRMessage

type w32 struct {
	*Node
	a, b, x, k *vnode.Ident // two registered gateways, an unregistered one, one whose registered key is unusable
	p, q       *vnode.Ident // providers
	other      *fcrcrypto.KeyPair
	payer      *vnode.Payer
	n          int
	at         string
}

func (w *w32) bad(what, detail string) {
	w.T.Violate("c32:"+what, w.at+": "+detail, w.at)
}

func (w *w32) begin(format string, a ...interface{}) {
	w.at = fmt.Sprintf(format, a...)
	at := w.at
	w.T.Case(func() string { return at })
	w.T.Eval()
	w.T.Transition()
	w.T.State(at)
}

func (w *w32) pay() (string, string) {
	if len(w.Chain.Channels) > 100 || w.payer == nil {
		w.Chain.Channels = nil
		w.payer = vnode.NewPayer(w.Chain, 40, w.Me.Wallet.Addr, 1<<60)
	}
	return w.payer.Ch.String(), w.payer.Voucher(SearchPrice)
}

// what is told of a CID: the keys of the sub-offers, or digests
type told struct {
	refused bool
	found   bool
	items   []string
}

// want is what is to be told of a CID by a store of these offers.
func want(c *cid.ContentID, digests bool, offers ...*cidoffer.CIDOffer) (r told) {
	for _, o := range offers {
		if !Covers(o, c) {
			continue
		}
		r.found = true
		if digests {
			r.items = append(r.items, Digest(o))
		} else {
			r.items = append(r.items, SubKeyOf(o, c))
		}
	}
	sort.Strings(r.items)
	return r
}

// subs32 reads sub-offers, each of which is to prove its content.
func (w *w32) subs32(l []cidoffer.SubCIDOffer) (r []string) {
	for i := range l {
		s := &l[i]
		r = append(r, SubKey(s))
		pv := w.p
		if s.GetProviderID().ToString() == w.q.Hex {
			pv = w.q
		}
		if err := s.Verify(pv.PubKey); err != nil {
			w.bad("offer", "a sub-offer does not verify: "+err.Error())
		}
		if err := s.VerifyMerkleProof(); err != nil {
			w.bad("offer", "a sub-offer does not prove its content: "+err.Error())
		}
	}
	sort.Strings(r)
	return r
}

const (
	kStandard = iota
	kGateway
	kGatewayV2
)

var kindNames = []string{"standard discovery", "gateway DHT discovery", "paid gateway DHT discovery"}

// tell reads the reply to a question.
func (w *w32) tell(kind int, c *cid.ContentID, nonce int64, q mm) (r told) {
	var rm mm
	raw := ""
	if kind == kStandard {
		x := vnode.Send(w.Rest, q)
		raw = x.String()
		if len(x.Docs) == 0 && x.Err == nil {
			return told{refused: true}
		}
		if x.Status != 200 && len(x.Docs) == 1 {
			return told{refused: true}
		}
		rm = x.Msg()
	} else {
		x, err := w.G.Ask(vnode.Bytes(q))
		if err != nil {
			w.bad("no answer", err.Error())
			return told{refused: true}
		}
		if x.GetMessageType() == m.InvalidMessageResponseType {
			return told{refused: true}
		}
		rm, raw = x, x.DumpMessage()
	}
	if !w.Me.Signed(rm) {
		w.bad("unsigned", "the reply is not one message signed by the gateway: "+raw)
		return told{refused: true}
	}
	var rc *cid.ContentID
	var rn int64
	var funded []bool
	var err error
	switch kind {
	case kStandard:
		var l []cidoffer.SubCIDOffer
		rc, rn, r.found, l, funded, err = m.DecodeClientStandardDiscoverResponse(rm)
		if err == nil {
			r.items = w.subs32(l)
		}
	case kGateway:
		var l []cidoffer.SubCIDOffer
		rc, rn, r.found, l, funded, err = m.DecodeGatewayDHTDiscoverResponse(rm)
		if err == nil {
			r.items = w.subs32(l)
		}
	case kGatewayV2:
		var more bool
		rc, rn, r.found, r.items, funded, more, _, err = m.DecodeGatewayDHTDiscoverResponseV2(rm)
		if err == nil && more {
			w.bad("payment", "more is asked than the price that was paid: "+raw)
		}
		sort.Strings(r.items)
	}
	switch {
	case err != nil:
		w.bad("reply", err.Error()+": "+raw)
	case rc.ToString() != c.ToString() || rn != nonce:
		w.bad("reply", "it answers another question: "+raw)
	case len(funded) != len(r.items):
		w.bad("reply", "offers and channels do not match: "+raw)
	}
	return r
}

func (w *w32) judge(got, want told) {
	g, x := fmt.Sprintf("%v %v %s", got.refused, got.found, strings.Join(got.items, ";")), fmt.Sprintf("%v %v %s", want.refused, want.found, strings.Join(want.items, ";"))
	if g != x {
		what := "content"
		if got.refused != want.refused {
			what = "entitled"
		}
		w.bad(what, fmt.Sprintf("got (refused, found, offers) %s, to be %s", g, x))
	}
	w.T.Outcome(fmt.Sprintf("refused %v, found %v, %d offers", got.refused, got.found, len(got.items)))
	w.T.Trace()
}

// ask makes a question of a kind.
func (w *w32) ask(kind int, named *vnode.Ident, c *cid.ContentID, nonce, ttl int64, ch, v string) mm {
	var q mm
	var err error
	switch kind {
	case kStandard:
		q, err = m.EncodeClientStandardDiscoverRequest(c, nonce, ttl, "", "")
	case kGateway:
		q, err = m.EncodeGatewayDHTDiscoverRequest(named.ID, c, nonce, ttl, "", "")
	case kGatewayV2:
		q, err = m.EncodeGatewayDHTDiscoverRequestV2(named.ID, c, nonce, ttl, ch, v)
	}
	vnode.Must(err)
	return q
}

func (w *w32) single(p *vnode.Ident, c *cid.ContentID, price uint64) *cidoffer.CIDOffer {
	o := p.Offer([]*cid.ContentID{c}, price, vnode.Forever, 1)
	if !w.Publish(p, true, o) {
		panic("an offer is not taken")
	}
	return o
}

func (w *w32) group(p *vnode.Ident, price uint64, cs ...*cid.ContentID) *cidoffer.CIDOffer {
	o := p.Offer(cs, price, vnode.Forever, 1)
	if !w.Publish(p, false, o) {
		panic("a group offer is not taken")
	}
	return o
}

func (w *w32) fresh() *cid.ContentID {
	w.n++
	return vnode.CID(fmt.Sprintf("%02x", (w.n*41)%256), 900000000+w.T.Shard*1000000+w.n)
}

// c32: who asks is told what the gateway has, and only who may ask and in time.
func c32(t *vh.T, main func()) {
	n := Start(t, main, "REGISTER_REFRESH_DURATION=5h")
	w := &w32{Node: n, a: vnode.NewIdent("A", 3, "82"), b: vnode.NewIdent("B", 4, "83"), x: vnode.NewIdent("X", 5, "84"), k: vnode.NewIdent("K", 6, "85"), p: vnode.NewIdent("P", 7, "86"), q: vnode.NewIdent("Q", 8, "87")}
	w.other = vnode.NewIdent("A2", 77, "82").Key
	for _, i := range []*vnode.Ident{w.a, w.b} {
		n.Reg.Gateway(i, "127.0.0.1:1", "127.0.0.1:1", "127.0.0.1:1")
	}
	n.Reg.RawGateway(register.GatewayRegister{NodeID: w.k.Hex, Address: w.k.Wallet.Addr.String(), RootSigningKey: vnode.RootPub, SigningKey: "0104zz", RegionCode: "AU", NetworkInfoGateway: "127.0.0.1:1"})
	n.Reg.Provider(w.p, "127.0.0.1:1", "127.0.0.1:1")
	n.Reg.Provider(w.q, "127.0.0.1:1", "127.0.0.1:1")
	n.Init()
	case_ := 0
	mine := func() bool { case_++; return t.Mine(case_) }
	w.whoMayAsk(mine)
	w.whatIsTold(mine)
	w.whatExpires(mine)
	w.keys(mine)
	w.establish(mine)
}

// whoMayAsk: who is named, who signs, what is altered, until when.
func (w *w32) whoMayAsk(mine func() bool) {
	c, u := w.fresh(), w.fresh()
	o := w.single(w.p, c, 5)
	now := time.Now().Unix()
	ttls := []int64{math.MinInt64, -1, 0, now - 1000, now - 1, now + 1000, math.MaxInt64}
	alterations := []string{"", "nonce", "ttl", "gateway_id", "piece_cid", "unsigned", "signature of another"}
	nonces := []int64{0, -1, math.MaxInt64, 4711}
	for kind := kStandard; kind <= kGatewayV2; kind++ {
		for _, named := range []*vnode.Ident{w.a, w.b, w.x, w.k, w.Me} {
			for _, signer := range []*vnode.Ident{w.a, w.b, w.x, w.k, w.Me} {
				for ti, ttl := range ttls {
					for ai, alter := range alterations {
						if kind == kStandard && (named != w.a || signer != w.a || alter != "" && alter != "unsigned") {
							continue
						}
						if signer != named && alter != "" || ai > 0 && ti != 4 && ti != 5 {
							continue
						}
						for ni, nonce := range nonces {
							if !mine() {
								continue
							}
							x, offers := c, []*cidoffer.CIDOffer{o}
							if ni == 2 {
								x, offers = u, nil
							}
							w.begin("%s naming %s, signed by %s, altered %q, time to live %d, nonce %d", kindNames[kind], named.Name, signer.Name, alter, ttl-now, nonce)
							ch, v := "", ""
							if kind == kGatewayV2 {
								ch, v = w.pay()
							}
							q := signer.Sign(w.ask(kind, named, x, nonce, ttl, ch, v), nil)
							ask := w.ask(kind, named, x, nonce, ttl, ch, v)
							switch alter {
							case "unsigned":
								q = ask
							case "nonce":
								q = resigned(w.ask(kind, named, x, nonce-1, ttl, ch, v), q)
							case "ttl":
								q = resigned(w.ask(kind, named, x, nonce, now+2000, ch, v), q)
							case "gateway_id":
								q = resigned(w.ask(kind, map[bool]*vnode.Ident{true: w.b, false: w.a}[named == w.a], x, nonce, ttl, ch, v), q)
							case "piece_cid":
								q = resigned(w.ask(kind, named, w.fresh(), nonce, ttl, ch, v), q)
							case "signature of another":
								q = resigned(ask, signer.Sign(w.ask(kStandard, named, x, nonce, ttl, ch, v), nil))
							}
							registered := named == w.a || named == w.b || named == w.Me
							ok := ttl > now && (kind == kStandard || registered && signer == named && alter == "")
							exp := told{refused: true}
							if ok {
								exp = want(x, kind == kGatewayV2, offers...)
							}
							w.judge(w.tell(kind, x, nonce, q), exp)
							if kind == kGatewayV2 && !ok {
								// nothing was paid for the refusal
								w.at += ", then asked as it should be with the same voucher"
								w.judge(w.tell(kind, c, 5, w.a.Sign(w.ask(kind, w.a, c, 5, now+1000, ch, v), nil)), want(c, true, o))
							}
						}
					}
				}
			}
		}
	}
}

// resigned is a message under the signature of another.
func resigned(x, from mm) mm {
	b := setField(vnode.Bytes(x), "signature", field(vnode.Bytes(from), "signature"))
	r, err := m.FCRMsgFromBytes(b)
	vnode.Must(err)
	return r
}

// whatIsTold: every set of 7 offers over three CIDs, and every CID asked for in each way; twice.
func (w *w32) whatIsTold(mine func() bool) {
	for set := 0; set < 128; set++ {
		if !mine() {
			continue
		}
		c := []*cid.ContentID{w.fresh(), w.fresh(), w.fresh(), w.fresh()}
		make_ := []func() *cidoffer.CIDOffer{
			func() *cidoffer.CIDOffer { return w.single(w.p, c[0], 5) },
			func() *cidoffer.CIDOffer { return w.single(w.p, c[0], 6) },
			func() *cidoffer.CIDOffer { return w.single(w.q, c[0], 5) },
			func() *cidoffer.CIDOffer { return w.group(w.p, 5, c[0], c[1], c[2]) },
			func() *cidoffer.CIDOffer { return w.group(w.q, 5, c[2], c[0]) },
			func() *cidoffer.CIDOffer { return w.group(w.p, 5, c[1], c[0]) },
			func() *cidoffer.CIDOffer { return w.single(w.q, c[2], 1<<40) },
		}
		offers := []*cidoffer.CIDOffer{}
		for i, f := range make_ {
			if set&(1<<i) != 0 {
				offers = append(offers, f())
			}
		}
		for round := 0; round < 2; round++ {
			for i := range c {
				for kind := kStandard; kind <= kGatewayV2; kind++ {
					w.begin("%s for content %d of offers %07b, round %d", kindNames[kind], i, set, round)
					ch, v := "", ""
					if kind == kGatewayV2 {
						ch, v = w.pay()
					}
					nonce := w.Nonce()
					w.judge(w.tell(kind, c[i], nonce, w.a.Sign(w.ask(kind, w.a, c[i], nonce, TTL(), ch, v), nil)), want(c[i], kind == kGatewayV2, offers...))
				}
			}
		}
	}
}

// whatExpires: every set of 4 offers of which each is over soon or lasts; asked for before that, after that or only
// when as many new ones have taken the place of those that are over, and then.
func (w *w32) whatExpires(mine func() bool) {
	type later struct {
		set    int
		after  bool
		c      []*cid.ContentID
		offers []*cidoffer.CIDOffer
	}
	all := []*later{}
	soon := time.Now().Unix() + 6
	offer := func(l *later, i int, price uint64, expiry int64) *cidoffer.CIDOffer {
		by := []*vnode.Ident{w.p, w.q}[i%2]
		cs := l.c[:1]
		if i >= 2 {
			cs = l.c
		}
		o := by.Offer(cs, price, expiry, 1)
		if !w.Publish(by, i < 2, o) {
			if expiry == vnode.Forever || time.Now().Unix() < soon {
				w.bad("publication", "an offer is not taken")
			}
			return nil
		}
		return o
	}
	ask := func(l *later, when string, soon int64, offers []*cidoffer.CIDOffer) {
		for i := range l.c {
			for kind := kStandard; kind <= kGatewayV2; kind++ {
				w.begin("%s for content %d when offers %04b of 4 are over (asked then: %v), %s", kindNames[kind], i, l.set, l.after, when)
				ch, v := "", ""
				if kind == kGatewayV2 {
					ch, v = w.pay()
				}
				nonce := w.Nonce()
				told := w.tell(kind, l.c[i], nonce, w.a.Sign(w.ask(kind, w.a, l.c[i], nonce, TTL(), ch, v), nil))
				if soon == 0 || time.Now().Unix() < soon {
					w.judge(told, want(l.c[i], kind == kGatewayV2, offers...))
				}
			}
		}
	}
	for set := 0; set < 16; set++ {
		for _, after := range []bool{false, true} {
			if !mine() || time.Now().Unix() >= soon {
				continue
			}
			l := &later{set, after, []*cid.ContentID{w.fresh(), w.fresh()}, nil}
			now := []*cidoffer.CIDOffer{}
			for i := 0; i < 4; i++ {
				expiry := vnode.Forever
				if set&(1<<i) != 0 {
					expiry = soon
				}
				o := offer(l, i, uint64(i+1), expiry)
				if o == nil {
					return
				}
				now = append(now, o)
				if expiry != soon {
					l.offers = append(l.offers, o)
				}
			}
			ask(l, "before", soon, now)
			all = append(all, l)
		}
	}
	for time.Now().Unix() < soon+2 {
		time.Sleep(100 * time.Millisecond)
	}
	for _, l := range all {
		if l.after {
			ask(l, "after", 0, l.offers)
		}
		for i := 0; i < 4; i++ {
			if l.set&(1<<i) != 0 {
				if o := offer(l, i, uint64(i+11), vnode.Forever); o != nil {
					l.offers = append(l.offers, o)
				}
			}
		}
		ask(l, "when others have come instead", 0, l.offers)
	}
}

// keys: every history of the register changing A's key, the gateway reading it, and questions signed with either key.
func (w *w32) keys(mine func() bool) {
	c := w.fresh()
	o := w.single(w.p, c, 5)
	put := func(k *fcrcrypto.KeyPair) {
		pub, err := k.EncodePublicKey()
		vnode.Must(err)
		w.Reg.RawGateway(register.GatewayRegister{NodeID: w.a.Hex, Address: w.a.Wallet.Addr.String(), RootSigningKey: vnode.RootPub, SigningKey: pub, RegionCode: "AU", NetworkInfoGateway: "127.0.0.1:1"})
	}
	keys := []*fcrcrypto.KeyPair{w.a.Key, w.other}
	ops := []string{"register key 0", "register key 1", "read", "ask with key 0", "ask paid with key 1", "ask with key 1"}
	depth := w.T.Pick(5, 6)
	total := 1
	for i := 0; i < depth; i++ {
		total *= len(ops)
	}
	for h := 0; h < total; h++ {
		if !mine() {
			continue
		}
		put(keys[0])
		w.Refresh()
		reg, known := 0, 0
		trail := ""
		for d, x := 0, h; d < depth; d, x = d+1, x/len(ops) {
			op := x % len(ops)
			trail += "; " + ops[op]
			switch op {
			case 0, 1:
				reg = op
				put(keys[op])
			case 2:
				w.Refresh()
				known = reg
			default:
				k := map[int]int{3: 0, 4: 1, 5: 1}[op]
				kind := kGateway
				ch, v := "", ""
				if op == 4 {
					kind = kGatewayV2
					ch, v = w.pay()
				}
				w.begin("history of A's key%s", trail)
				nonce := w.Nonce()
				q := w.ask(kind, w.a, c, nonce, TTL(), ch, v)
				vnode.Must(q.Sign(keys[k], vnode.Ver))
				exp := told{refused: true}
				if k == known {
					exp = want(c, kind == kGatewayV2, o)
				}
				w.judge(w.tell(kind, c, nonce, q), exp)
			}
		}
	}
	put(keys[0])
	w.Refresh()
}

// establish: the challenge comes back signed, in time.
func (w *w32) establish(mine func() bool) {
	now := time.Now().Unix()
	for _, id := range []string{"00", "82", "ff"} {
		for _, ch := range []string{"", "x", "\"", "<&>\u2028\u0000", strings.Repeat("ab", 16), strings.Repeat("long ", 20000), w.Me.Hex} {
			for _, ttl := range []int64{math.MinInt64, -1, 0, now - 1, now + 1000, math.MaxInt64} {
				if !mine() {
					continue
				}
				show := ch
				if len(show) > 40 {
					show = show[:40] + "..."
				}
				w.begin("establishment of client %s.. with %q, time to live %d", id, show, ttl-now)
				q, err := m.EncodeClientEstablishmentRequest(vnode.NewIdentID(id, 1), ch, ttl)
				vnode.Must(err)
				x := vnode.Send(w.Rest, q)
				if ttl < now {
					if len(x.Docs) != 0 && x.Status == 200 {
						w.bad("late", "it is answered: "+x.String())
					}
					w.T.Outcome("establishment refused")
					w.T.Trace()
					continue
				}
				r := x.Msg()
				if !w.Me.Signed(r) {
					w.bad("establishment", "the answer is not one message signed by the gateway: "+x.String())
					continue
				}
				gw, got, err := m.DecodeClientEstablishmentResponse(r)
				if err != nil || gw.ToString() != w.Me.Hex || got != ch {
					w.bad("establishment", "the answer does not give the gateway and the challenge: "+x.String())
				}
				w.T.Outcome("establishment answered")
				w.T.Trace()
			}
		}
	}
}
