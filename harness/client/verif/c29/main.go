//go:build go1.21

// C29, the client's side: what a client pays the gateways it asks.
package main

import (
	"errors"
	"fmt"
	"math/big"
	"strings"

	"github.com/ConsenSys/fc-retrieval/common/pkg/fcrmessages"
	"github.com/ConsenSys/fc-retrieval/common/pkg/nodeid"

	"github.com/ConsenSys/fc-retrieval/client/pkg/fcrclient"
	"github.com/ConsenSys/fc-retrieval/client/verif/vclient"
	"github.com/ConsenSys/fc-retrieval/common/verif/vh"
	"github.com/ConsenSys/fc-retrieval/common/verif/vnode"
)

type msg = fcrmessages.FCRMessage

var (
	t      *vh.T
	w      *vclient.World
	topups = []int64{1000, 7, 8, 4, 20, 6, 3, 11}
	topup  int64
	asked  = vnode.CID("71", 1)
	desc   string
	gs     [2]*gw
)

// gw is a gateway as the client should have dealt with it.
type gw struct {
	*vnode.Ident
	open   bool  // there is a channel
	bal    int64 // put in it
	red    int64 // spent of it
	unsent int64 // spent on requests that did not reach the gateway
	unsure bool  // something went wrong on the chain
}

// op is one call of the client.
type op struct {
	dht    int64 // gateways to be asked, 0 for the standard discovery
	g      int   // which gateway is asked
	first  string
	lists  []int // digests listed, by each part of the reply
	limit  int
	second string
	fault  int
	exec   bool
	label  string
}

func (o op) String() string {
	s := "standard discovery"
	if o.dht > 0 {
		s = fmt.Sprintf("DHT discovery through %d", o.dht)
	}
	return fmt.Sprintf("%s by gateway %d: it %s, lists %v, limit %d, then it %s%s", s, o.g, o.first, o.lists, o.limit, o.second, o.label)
}

func bad(key, f string, a ...interface{}) {
	t.Violate("c29:client:"+key, desc+": "+fmt.Sprintf(f, a...), desc)
}

// want is a request the client should make.
type want struct {
	ask   int64
	act   string
	first bool
	again bool // a top-up comes first in any case
}

func digest(i, j int) string { return fmt.Sprintf("%043d=", 100*(i+1)+j) }

// plan is what a client should do, ignoring what it can pay: each payment, and what becomes of the request.
func plan(o op) (out []want) {
	ask := int64(vclient.SearchPrice)
	if o.dht > 0 {
		ask *= o.dht
	}
	n := 0
	for _, l := range o.lists {
		n += l
	}
	if n > o.limit {
		n = o.limit
	}
	switch o.first {
	case "hangs up", "is down":
		return []want{{ask, o.first, true, false}}
	case "asks for payment twice":
		return []want{{ask, "payment", true, false}, {ask, "payment", true, true}}
	case "asks for payment once":
		out = []want{{ask, "payment", true, false}, {ask, "answers", true, true}}
	default:
		out = []want{{ask, "answers", true, false}}
	}
	if n > 0 {
		out = append(out, want{int64(n) * vclient.OfferPrice, o.second, false, false})
	}
	return out
}

func do(o op, trail string) {
	desc = fmt.Sprintf("top-ups of %d; %s%s", topup, trail, o)
	d := desc
	t.Case(func() string { return d })
	t.Eval()
	t.Transition()
	g := gs[o.g]
	faulty := o.fault >= 0 || o.exec
	todo := plan(o)
	step := 0 // of the plan
	seen := 0
	held := func() int64 {
		s := int64(0)
		for _, c := range w.Chain.Channels {
			if c.To == g.Wallet.Addr {
				s += c.Bal().Int64()
			}
		}
		return s
	}
	// pays moves the model by one payment; it says whether it can be made
	pays := func(x want) bool {
		n := int64(0)
		if x.again || (!g.open && x.ask == 0) {
			n = 1
		}
		for n < 2 && g.bal-g.red+n*topup < x.ask {
			n++
		}
		g.bal += n * topup
		if n > 0 {
			g.open = true
		}
		if g.bal-g.red < x.ask {
			return false
		}
		g.red += x.ask
		return true
	}
	stuck, broken := false, false
	w.On[vclient.Addr(g.Ident)] = func(m *msg) (*msg, error) {
		seen++
		first := m.GetMessageType() == fcrmessages.ClientStandardDiscoverRequestV2Type || m.GetMessageType() == fcrmessages.ClientDHTDiscoverRequestV2Type
		if step >= len(todo) || stuck {
			bad("request", "a request of type %d is made that should not be", m.GetMessageType())
			return nil, errors.New("refused")
		}
		x := todo[step]
		step++
		if x.first != first {
			bad("request", "request %d is of type %d", step, m.GetMessageType())
			return nil, errors.New("refused")
		}
		if !faulty && !g.unsure {
			if !pays(x) {
				stuck = true
				bad("request", "request %d is made though it cannot be paid for", step)
				return nil, errors.New("refused")
			}
			if got := held(); got != g.bal {
				bad("topup", "the channel to the gateway holds %d by request %d, not %d", got, step, g.bal)
			}
		}
		if x.act == "is down" {
			g.unsent += x.ask
			broken = true
			return nil, errors.New("connection refused")
		}
		var ch, v string
		var nonce int64
		var err error
		count := int64(0)
		switch m.GetMessageType() {
		case fcrmessages.ClientStandardDiscoverRequestV2Type:
			_, nonce, _, ch, v, err = fcrmessages.DecodeClientStandardDiscoverRequestV2(m)
		case fcrmessages.ClientDHTDiscoverRequestV2Type:
			_, nonce, _, _, _, ch, v, err = fcrmessages.DecodeClientDHTDiscoverRequestV2(m)
		case fcrmessages.ClientStandardDiscoverOfferRequestType:
			var ds []string
			_, nonce, _, ds, ch, v, err = fcrmessages.DecodeClientStandardDiscoverOfferRequest(m)
			count = int64(len(ds))
		case fcrmessages.ClientDHTDiscoverOfferRequestType:
			var ds [][]string
			_, nonce, ds, _, ch, v, err = fcrmessages.DecodeClientDHTDiscoverOfferRequest(m)
			for _, d := range ds {
				count += int64(len(d))
			}
		default:
			err = fmt.Errorf("message type %d", m.GetMessageType())
		}
		if err != nil {
			bad("request", "the gateway receives something else: %v", err)
			return nil, err
		}
		price := x.ask
		if !first {
			price = count * vclient.OfferPrice
			if price != x.ask {
				bad("request", "%d offers are asked for, not %d", count, x.ask/vclient.OfferPrice)
			}
		}
		val, err := w.Paid(g.Ident, ch, v)
		switch {
		case err != nil:
			bad("voucher", "the gateway receives a voucher that is no good: %v", err)
		case val.Cmp(big.NewInt(price)) == 0:
			g.unsent = 0
		case g.unsent > 0 && val.Cmp(big.NewInt(price+g.unsent)) == 0:
			bad(map[bool]string{true: "unsent:discovery", false: "unsent:offers"}[first], "the gateway receives a voucher worth %s for a price of %d: what was spent on requests that did not reach it, %d, is paid again", val, price, g.unsent)
			g.unsent = 0
		default:
			bad("price", "the gateway receives a voucher worth %s for request %d, the price is %d", val, step, price)
		}
		if x.act == "hangs up" {
			broken = true
			return nil, errors.New("connection closed")
		}
		pay := x.act == "payment"
		return g.Sign(answer(o, m, nonce, pay, ch)), nil
	}
	if o.fault >= 0 {
		k := 0
		w.Chain.Fault = func(m string) error {
			if m == "StateGetReceipt" {
				return nil
			}
			k++
			if k-1 == o.fault {
				return errors.New("the chain does not answer")
			}
			return nil
		}
	}
	if o.exec {
		w.Chain.ExecFail = func(*big.Int) bool { return true }
	}
	var err error
	ok := t.Try("c29:client:panic", desc, func() {
		if o.dht > 0 {
			_, err = w.C.FindOffersDHTDiscoveryV2(asked, g.ID, o.dht, o.limit)
		} else {
			_, err = w.C.FindOffersStandardDiscoveryV2(asked, g.ID, o.limit)
		}
	})
	w.Chain.Fault, w.Chain.ExecFail = nil, nil
	if !ok {
		return
	}
	if !faulty && !g.unsure {
		cannot := false
		if step < len(todo) && !broken {
			if pays(todo[step]) {
				bad("request", "only %d of %d requests are made (error %v)", step, len(todo), err)
			}
			cannot = true
		}
		if got := held(); got != g.bal {
			bad("topup", "the channel to the gateway holds %d after the call, not %d", got, g.bal)
		}
		last := todo[len(todo)-1]
		fail := cannot || broken || last.act == "payment"
		if fail && err == nil {
			bad("error", "no error though %s", map[bool]string{true: "it cannot pay", false: "the last request got no answer, or payment is required again"}[cannot])
		}
		if !fail && err != nil {
			bad("answer", "all was paid and answered, yet there is an error: %v", err)
		}
	} else {
		if step < len(todo) && !broken && err == nil {
			bad("error", "only %d of %d requests are made, and there is no error", step, len(todo))
		}
		g.unsure = true
	}
	t.Outcome(fmt.Sprintf("%d requests, error %v", seen, err != nil))
	t.State(desc)
	t.Trace()
}

func answer(o op, m *msg, nonce int64, pay bool, ch string) (*msg, error) {
	switch m.GetMessageType() {
	case fcrmessages.ClientStandardDiscoverRequestV2Type:
		ds := []string{}
		for i, n := range o.lists {
			for j := 0; j < n; j++ {
				ds = append(ds, digest(i, j))
			}
		}
		if pay {
			ds = nil
		}
		return fcrmessages.EncodeClientStandardDiscoverResponseV2(asked, nonce, len(ds) > 0, ds, make([]bool, len(ds)), pay, ch)
	case fcrmessages.ClientDHTDiscoverRequestV2Type:
		ids, ms := []nodeid.NodeID{}, []msg{}
		if !pay {
			for i, n := range o.lists {
				ds := []string{}
				for j := 0; j < n; j++ {
					ds = append(ds, digest(i, j))
				}
				by := w.G[2-i]
				x, err := fcrmessages.EncodeGatewayDHTDiscoverResponseV2(asked, nonce+5, n > 0, ds, make([]bool, n), false, "")
				ids = append(ids, *by.ID)
				ms = append(ms, *by.Sign(x, err))
			}
		}
		return fcrmessages.EncodeClientDHTDiscoverResponseV2(ids, ms, []nodeid.NodeID{}, nonce, pay, ch)
	case fcrmessages.ClientStandardDiscoverOfferRequestType:
		return fcrmessages.EncodeClientStandardDiscoverOfferResponse(asked, nonce, false, nil, nil, pay, ch)
	}
	return fcrmessages.EncodeClientDHTDiscoverOfferResponse(asked, nonce, []nodeid.NodeID{}, []msg{}, pay, ch)
}

func fresh() {
	w.Client(topup)
	for i := range gs {
		gs[i] = &gw{Ident: w.G[i]}
	}
	w.Use(w.G[0], w.G[1])
}

func run(l ...op) {
	fresh()
	trail := ""
	for _, o := range l {
		do(o, trail)
		trail += o.String() + "; then "
	}
}

// noWallet is a client whose wallet key cannot be read: it cannot pay, and must say so.
func noWallet() {
	for _, key := range []string{"", "zz", "00", strings.Repeat("00", 32), strings.Repeat("ff", 32), "fffffffffffffffffffffffffffffffebaaedce6af48a03bbfd25e8cd0364141", strings.Repeat("11", 33)} {
		for _, dht := range []bool{false, true} {
			fresh()
			s := vclient.Settings(topup)
			b := fcrclient.CreateSettings()
			b.SetLogging("fatal", "STDOUT", "client")
			b.SetBlockchainPrivateKey(s.BlockchainPrivateKey())
			b.SetRegisterURL("http://register")
			b.SetLotusAP(s.LotusAP())
			b.SetWalletPrivateKey(key)
			c, err := fcrclient.NewFilecoinRetrievalClient(*b.Build(), w.Mgr)
			vnode.Must(err)
			w.C = c
			w.Use(w.G[0])
			desc = fmt.Sprintf("a client with the wallet key %q, DHT %v", key, dht)
			t.Eval()
			t.Transition()
			t.State(desc)
			t.Trace()
			w.On[vclient.Addr(w.G[0])] = func(m *msg) (*msg, error) {
				bad("wallet", "a request is made that cannot be paid for")
				return nil, errors.New("refused")
			}
			ok := t.Try("c29:client:panic", desc, func() {
				if dht {
					_, err = c.FindOffersDHTDiscoveryV2(asked, w.G[0].ID, 1, 1)
				} else {
					_, err = c.FindOffersStandardDiscoveryV2(asked, w.G[0].ID, 1)
				}
			})
			if ok && err == nil {
				bad("wallet", "no error")
			}
		}
	}
}

func main() {
	vh.Main(func(tt *vh.T) {
		t = tt
		w = vclient.New(t)
		w.StartMgr()
		topup = topups[t.Shard%len(topups)]
		t.State("start")
		ops := []op{}
		add := func(o op) {
			o.fault = -1
			ops = append(ops, o)
		}
		for _, dht := range []int64{0, 1, 3} {
			for _, f := range []string{"hangs up", "is down", "asks for payment twice"} {
				add(op{dht: dht, first: f, lists: []int{1}, limit: 1, second: "answers"})
			}
			shapes := []struct {
				l   []int
				lim int
			}{{[]int{1}, 5}, {[]int{2, 1}, 2}, {[]int{0}, 5}, {[]int{1, 2}, 5}}
			for _, f := range []string{"answers", "asks for payment once"} {
				for i, s := range shapes {
					for _, sec := range []string{"answers", "payment", "hangs up", "is down"} {
						if (i >= 2 || f != "answers") && sec != "answers" {
							continue
						}
						add(op{dht: dht, first: f, lists: s.l, limit: s.lim, second: sec})
					}
				}
			}
		}
		on := func(o op, g int) op { o.g = g; return o }
		for _, a := range ops {
			for _, b := range ops {
				if t.Over() {
					break
				}
				run(a, b)
				if t.Thorough() {
					for _, c := range ops {
						run(a, b, c)
					}
				} else {
					run(a, on(b, 1), on(b, 0))
				}
			}
		}
		n := 0
		for _, a := range ops {
			if a.first == "answers" && a.second == "answers" && !t.Over() {
				if n++; n > t.Pick(2, 1000) {
					break
				}
				for _, f := range ops {
					if f.second != "answers" || (f.first != "answers" && f.first != "asks for payment once") {
						continue
					}
					for k := 0; k <= 14; k++ {
						x := f
						if k < 14 {
							x.fault, x.label = k, fmt.Sprintf(", call %d to the chain fails", k)
						} else {
							x.exec, x.label = true, ", what is sent to the chain fails there"
						}
						run(x, a)
						run(a, x, on(a, 1))
					}
				}
			}
		}
		noWallet()
		if t.Over() {
			t.NotExhaustive("time")
		}
		t.Sample(strings.Join([]string{ops[0].String(), ops[len(ops)-1].String()}, " / "))
		t.Assume("a payment that was recorded on the chain but not learned of by the client is not counted against it")
	})
}
