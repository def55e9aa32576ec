//go:build go1.21

package nodechecks

import (
	"errors"
	"fmt"
	"math/big"
	"os"
	"strings"

	"github.com/filecoin-project/go-address"

	"github.com/ConsenSys/fc-retrieval/common/pkg/cid"
	"github.com/ConsenSys/fc-retrieval/common/pkg/fcrmessages"
	"github.com/ConsenSys/fc-retrieval/common/pkg/nodeid"
	"github.com/ConsenSys/fc-retrieval/common/pkg/register"

	"github.com/ConsenSys/fc-retrieval/common/verif/vh"
	"github.com/ConsenSys/fc-retrieval/common/verif/vnode"
)

func init() { checks["c29"] = c29 }

// what a gateway may top up with, one per shard
var topups = []int64{1000, 7, 8, 4, 20, 6, 3, 11}

type payee struct {
	*vnode.Peer
	to     address.Address
	worth  vnode.Worth
	bal    int64 // what the channel to it holds, as it should be
	red    int64 // what of it was spent
	unsent int64 // spent on vouchers it was not given
	unsure bool  // something went wrong on the chain
	// of the running request
	act  string
	ask  int64 // what it must be paid
	seen int
}

type w29 struct {
	*Node
	topup int64
	p     []*payee
	payer *vnode.Payer
	asker *vnode.Ident
	cid   *cid.ContentID
	n     int
	desc  string
	order []string
}

// op is one request that makes the node pay others.
type op29 struct {
	name  string
	items []int // digests asked of each gateway; -1 for discovery
	acts  []string
	fault int    // the call to the chain that fails, -1 for none
	exec  bool   // pushed messages fail on the chain
	label string // of the fault
}

func (o op29) String() string {
	return fmt.Sprintf("%s, gateways [%s]%s", o.name, strings.Join(o.acts, ", "), o.label)
}

// fresh gives every peer an address the node has not paid yet.
func (w *w29) fresh() {
	w.n++
	w.Chain.Channels = w.Chain.Channels[:1:1] // the client's
	for i, p := range w.p {
		a, err := address.NewSecp256k1Address([]byte(fmt.Sprint("payee ", os.Getpid(), w.n, i)))
		vnode.Must(err)
		p.to, p.bal, p.red, p.unsent, p.unsure = a, 0, 0, 0, false
		p.worth = vnode.Worth{From: w.Me.Wallet.Addr}
		w.Reg.RawGateway(register.GatewayRegister{NodeID: p.Hex, Address: a.String(), RootSigningKey: vnode.RootPub, SigningKey: p.Pub, RegionCode: "AU",
			NetworkInfoGateway: p.Addr, NetworkInfoProvider: "127.0.0.1:1", NetworkInfoClient: "127.0.0.1:1", NetworkInfoAdmin: "127.0.0.1:1"})
	}
	w.Refresh()
}

func (w *w29) bad(key, f string, a ...interface{}) {
	w.T.Violate("c29:gateway:"+key, w.desc+": "+fmt.Sprintf(f, a...), w.desc)
}

// serve is a peer's side: it looks at what it is paid before it answers.
func (w *w29) serve(p *payee, m *fcrmessages.FCRMessage) []byte {
	p.seen++
	w.order = append(w.order, p.Name)
	var ch, v string
	var c *cid.ContentID
	var n int64
	var err error
	kind := 0
	switch m.GetMessageType() {
	case fcrmessages.GatewayDHTDiscoverRequestV2Type:
		_, c, n, _, ch, v, err = fcrmessages.DecodeGatewayDHTDiscoverRequestV2(m)
	case fcrmessages.GatewayDHTDiscoverOfferRequestType:
		kind = 1
		c, n, _, ch, v, err = fcrmessages.DecodeGatewayDHTDiscoverOfferRequest(m)
	default:
		err = fmt.Errorf("message type %d", m.GetMessageType())
	}
	if err != nil {
		w.bad("request", "%s receives something else: %v", p.Name, err)
		return nil
	}
	val, err := p.worth.Value(w.Chain, p.to, ch, v)
	switch {
	case err != nil:
		w.bad("voucher", "%s receives a voucher that is no good: %v", p.Name, err)
	case val.Cmp(big.NewInt(p.ask)) == 0:
		p.unsent = 0
	case p.unsent > 0 && val.Cmp(big.NewInt(p.ask+p.unsent)) == 0:
		w.bad([]string{"unsent:discovery", "unsent:offers"}[kind], "%s receives a voucher worth %s for a price of %d: what was spent on requests that did not reach it, %d, is paid again", p.Name, val, p.ask, p.unsent)
		p.unsent = 0
	default:
		w.bad("price", "%s receives a voucher worth %s, its price is %d", p.Name, val, p.ask)
	}
	var r *fcrmessages.FCRMessage
	pay := p.act == "payment required"
	if p.act == "hang up" {
		return nil
	}
	if kind == 0 {
		r, err = fcrmessages.EncodeGatewayDHTDiscoverResponseV2(c, n, false, nil, nil, pay, ch)
	} else {
		r, err = fcrmessages.EncodeGatewayDHTDiscoverOfferResponse(c, n, false, nil, nil, pay, ch)
	}
	return vnode.Bytes(p.Sign(r, err))
}

func (w *w29) held(to address.Address) *big.Int {
	s := new(big.Int)
	for _, c := range w.Chain.Channels {
		if c.To == to {
			s.Add(s, c.Bal())
		}
	}
	return s
}

func (w *w29) do(o op29, trail string) {
	t := w.T
	w.desc = fmt.Sprintf("top-ups of %d; %s%s", w.topup, trail, o)
	desc := w.desc
	t.Case(func() string { return desc })
	t.Eval()
	t.Transition()
	w.order = nil
	total := int64(0)
	for i, p := range w.p {
		p.act, p.seen = "", 0
		if i < len(o.items) {
			p.act = o.acts[i]
			if o.items[i] < 0 {
				p.ask = SearchPrice
			} else {
				p.ask = int64(o.items[i]) * OfferPrice
			}
			total += p.ask
		}
		p := p
		p.Script(func(m *fcrmessages.FCRMessage) []byte { return w.serve(p, m) })
		p.Down(p.act == "down")
	}
	if o.fault >= 0 {
		k := 0
		w.Chain.Fault = func(m string) error {
			if m == "StateGetReceipt" {
				return nil
			}
			k++
			if k-1 == o.fault {
				return errors.New("the chain does not answer")
			}
			return nil
		}
	}
	if o.exec {
		w.Chain.ExecFail = func(*big.Int) bool { return true }
	}
	var m *fcrmessages.FCRMessage
	var err error
	nonce := w.Nonce()
	if o.items[0] < 0 {
		m, err = fcrmessages.EncodeClientDHTDiscoverRequestV2(w.cid, nonce, TTL(), int64(len(o.items)), false, w.payer.Ch.String(), w.payer.Voucher(total+1))
	} else {
		ids, ds := []nodeid.NodeID{}, [][]string{}
		for i, k := range o.items {
			ids = append(ids, *w.p[i].ID)
			d := []string{}
			for j := 0; j < k; j++ {
				d = append(d, strings.Repeat(fmt.Sprintf("%02x", j+1), 32))
			}
			ds = append(ds, d)
		}
		m, err = fcrmessages.EncodeClientDHTDiscoverOfferRequest(w.cid, nonce, ds, ids, w.payer.Ch.String(), w.payer.Voucher(total+1))
	}
	before := []*big.Int{}
	for _, p := range w.p {
		before = append(before, w.held(p.to))
	}
	r := vnode.Send(w.Rest, w.asker.Sign(m, err))
	w.Chain.Fault, w.Chain.ExecFail = nil, nil
	ok := w.Me.Signed(r.Msg())
	t.Outcome(fmt.Sprintf("answered %v, %d gateways asked", ok, len(w.order)))
	faulty := o.fault >= 0 || o.exec
	stop := false
	for i, p := range w.p {
		if i >= len(o.items) {
			if p.seen > 0 {
				w.bad("request", "%s is asked", p.Name)
			}
			continue
		}
		if p.seen > 1 {
			w.bad("request", "%s is asked and paid %d times", p.Name, p.seen)
		}
		if faulty || p.unsure {
			// the node cannot know what the chain did; vouchers must be right all the same
			if ok && p.act != "down" && p.seen == 0 {
				w.bad("request", "%s is not asked, and no error reported", p.Name)
			}
			p.unsure = true
			if !ok {
				for _, q := range w.p[i:] {
					q.unsure = true // perhaps it gave up before
				}
			}
			if p.act == "down" {
				p.unsent += p.ask // perhaps
			}
			continue
		}
		if stop {
			if p.seen > 0 {
				w.bad("request", "%s is asked after paying another failed", p.Name)
			}
			continue
		}
		need := int64(0)
		for need < 2 && p.bal-p.red+need*w.topup < p.ask {
			need++
		}
		if p.bal == 0 && p.red == 0 && p.ask == 0 && need == 0 && before[i].Sign() == 0 {
			need = 1 // no channel yet
		}
		p.bal += need * w.topup
		got := new(big.Int).Sub(w.held(p.to), before[i])
		if got.Cmp(big.NewInt(need*w.topup)) != 0 {
			w.bad("topup", "the channel to %s is filled up by %s, not by %d times %d", p.Name, got, need, w.topup)
		}
		if p.bal-p.red < p.ask {
			// cannot pay: nobody further is asked
			if p.seen > 0 {
				w.bad("request", "%s is asked though it cannot be paid", p.Name)
			}
			if ok {
				w.bad("request", "%s cannot be paid, and no error is reported", p.Name)
			}
			stop = true
			continue
		}
		p.red += p.ask
		if p.act == "down" {
			p.unsent += p.ask
		} else if p.seen == 0 {
			w.bad("request", "%s is not asked", p.Name)
		}
	}
	if !faulty && !stop && !ok {
		unsure := false
		for _, p := range w.p {
			unsure = unsure || p.unsure
		}
		if !unsure {
			w.bad("answer", "no answer: %s", r)
		}
	}
	w.flush()
	t.State(desc)
	t.Trace()
}

// flush makes the node notice the connections that a gateway going down has cut, with questions that cost nothing.
func (w *w29) flush() {
	down := false
	for _, p := range w.p {
		down = down || p.act == "down"
		p.Script(nil)
	}
	if !down {
		return
	}
	m, err := fcrmessages.EncodeClientDHTDiscoverRequest(w.cid, 1, TTL(), int64(len(w.p)), false, "", "")
	vnode.Send(w.Rest, w.asker.Sign(m, err))
	for _, p := range w.p {
		p.Down(false)
	}
}

func c29(t *vh.T, main func()) {
	a := topups[t.Shard%len(topups)]
	n := Start(t, main, fmt.Sprint("TOPUP_AMOUNT=", a))
	w := &w29{Node: n, topup: a, cid: vnode.CID("81", 1)}
	w.asker = vnode.NewIdent("client", 9, "90")
	for i, lead := range []string{"82", "84"} {
		w.p = append(w.p, &payee{Peer: vnode.NewPeer(vnode.NewIdent(fmt.Sprint("gateway ", i+1), 3+i, lead))})
	}
	n.Init()
	w.payer = vnode.NewPayer(n.Chain, 30, n.Me.Wallet.Addr, 1<<60)
	t.State("start")
	ops := []op29{}
	add := func(name string, items []int, acts ...string) {
		ops = append(ops, op29{name: name, items: items, acts: acts, fault: -1})
	}
	as := []string{"answers", "payment required", "hang up", "down"}
	for _, x := range as {
		add("paid discovery of 1", []int{-1}, x)
		add("1 offer", []int{1}, x)
		add("2 offers", []int{2}, x)
		add("no offers", []int{0}, x)
		add("paid discovery of 2", []int{-1, -1}, x, "answers")
		add("paid discovery of 2", []int{-1, -1}, "answers", x)
		add("2 and 1 offers", []int{2, 1}, x, "answers")
		add("1 and 3 offers", []int{1, 3}, "answers", x)
	}
	plain := ops
	faulty := []op29{}
	for _, o := range plain {
		for _, x := range o.acts {
			if x != "answers" {
				goto next
			}
		}
		for k := 0; k < 14; k++ {
			q := o
			q.fault, q.label = k, fmt.Sprintf(", call %d to the chain fails", k)
			faulty = append(faulty, q)
		}
		o.exec, o.label = true, ", what is sent to the chain fails there"
		faulty = append(faulty, o)
	next:
	}
	depth := t.Pick(2, 3)
	var rec func(pre []op29)
	run := func(l []op29) {
		w.fresh()
		trail := ""
		for i, o := range l {
			if i == len(l)-1 {
				w.do(o, trail)
			} else {
				w.do(o, trail)
				trail += o.String() + "; then "
			}
		}
	}
	rec = func(pre []op29) {
		if t.Over() {
			return
		}
		if len(pre) == depth {
			run(pre)
			return
		}
		for _, o := range plain {
			rec(append(append([]op29{}, pre...), o))
		}
	}
	rec(nil)
	// a fault, before and after it other requests
	for _, f := range faulty {
		for i, o := range plain {
			if i >= t.Pick(8, len(plain)) {
				break
			}
			if t.Over() {
				break
			}
			run([]op29{f, o, plain[0]})
			run([]op29{o, f, plain[0]})
		}
	}
	if t.Over() {
		t.NotExhaustive("time")
	}
	t.Sample(fmt.Sprintf("%d plain requests, %d with a fault", len(plain), len(faulty)))
	t.Assume("a payment that was recorded on the chain but not learned of by the node is not counted against it")
}
