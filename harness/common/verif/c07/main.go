//go:build go1.21

// C07: every sequence of presented vouchers against a ledger model.
package main

import (
	"encoding/base64"
	"errors"
	"fmt"
	"math"
	"math/big"
	"reflect"
	"sort"
	"strings"

	"github.com/filecoin-project/go-address"
	lotusbig "github.com/filecoin-project/go-state-types/big"
	crypto2 "github.com/filecoin-project/go-state-types/crypto"
	"github.com/filecoin-project/lotus/api"
	"github.com/filecoin-project/lotus/chain/actors/builtin/paych"

	"github.com/ConsenSys/fc-retrieval/common/pkg/fcrpaymentmgr"
	"github.com/ConsenSys/fc-retrieval/common/pkg/logging"
	"github.com/ConsenSys/fc-retrieval/common/verif/vh"
	"github.com/ConsenSys/fc-retrieval/common/verif/vlotus"
)

var (
	me    = vlotus.NewAccount(1)
	payer = vlotus.NewAccount(50)
	q     = vlotus.NewAccount(90)
	other = vlotus.NewAccount(120)
)

// pres is one presentation of a voucher (or a chain event).
type pres struct {
	name    string
	raise   int64 // chain event: raise channel 0's balance
	chStr   string
	voucher string
	fault   string // failing chain call, "name" or "name#2" for its second use
	// what the model needs; sound means: everything but nonce, amount and balance is in order
	sound  bool
	may    bool // refusing is also in order
	ch     int
	lane   uint64
	nonce  uint64
	amount *big.Int
}

func newChain() *vlotus.Chain {
	return &vlotus.Chain{Channels: []*vlotus.Channel{
		vlotus.NewChannel(vlotus.ActorAddr(0), payer.Addr, me.Addr, big.NewInt(10)),
		vlotus.NewChannel(vlotus.ActorAddr(1), payer.Addr, me.Addr, big.NewInt(10)),
		vlotus.NewChannel(vlotus.ActorAddr(2), payer.Addr, other.Addr, big.NewInt(10)),
		vlotus.NewChannel(vlotus.ActorAddr(3), q.Addr, me.Addr, big.NewInt(10)),
	}, Odd: odd}
}

var oddAddrs []address.Address

func init() {
	for i := 20; i < 28; i++ {
		oddAddrs = append(oddAddrs, vlotus.ActorAddr(i))
	}
}

func odd(a address.Address) (*api.ActorState, bool) {
	b := lotusbig.NewInt(10)
	p, m := payer.Addr.String(), me.Addr.String()
	for i, o := range oddAddrs {
		if o != a {
			continue
		}
		switch i {
		case 0:
			return &api.ActorState{Balance: b, State: nil}, true
		case 1:
			return &api.ActorState{Balance: b, State: map[string]interface{}{}}, true
		case 2:
			return &api.ActorState{Balance: b, State: map[string]interface{}{"From": p}}, true
		case 3:
			return &api.ActorState{Balance: b, State: map[string]interface{}{"To": m}}, true
		case 4:
			return &api.ActorState{Balance: b, State: map[string]interface{}{"From": 7.0, "To": true}}, true
		case 5:
			return &api.ActorState{Balance: b, State: map[string]interface{}{"From": "", "To": "x"}}, true
		case 6:
			return &api.ActorState{Balance: b, State: []interface{}{p, m}}, true
		case 7:
			return &api.ActorState{State: map[string]interface{}{"From": p, "To": m}}, true
		}
	}
	return nil, false
}

func v(ch int, lane, nonce uint64, amt int64) pres {
	c := newChain().Channels[ch]
	from := payer
	if c.From == q.Addr {
		from = q
	}
	a := big.NewInt(amt)
	return pres{name: fmt.Sprintf("ch%d lane%d n%d a%d", ch, lane, nonce, amt), chStr: c.Addr.String(), voucher: vlotus.Voucher(from, c.Addr, lane, nonce, a, nil), sound: c.To == me.Addr, ch: ch, lane: lane, nonce: nonce, amount: a}
}

func (p pres) but(name string, f func(p *pres)) pres {
	p.name += " " + name
	p.sound = false
	f(&p)
	return p
}

func mutated(p pres, name string, f func(sv *paych.SignedVoucher)) pres {
	sv, err := paych.DecodeSignedVoucher(p.voucher)
	if err != nil {
		panic(err)
	}
	f(sv)
	return p.but(name, func(p *pres) { p.voucher = vlotus.Encode(sv) })
}

// conditional is a voucher its payer signed with a condition attached, so that it cannot be
// redeemed just like that: it is no payment.
func conditional(p pres, name string, f func(sv *paych.SignedVoucher)) pres {
	return mutated(p, name, func(sv *paych.SignedVoucher) { f(sv); vlotus.Sign(payer, sv) })
}

type laneM struct {
	next uint64
	red  *big.Int
}

func runSeq(t *vh.T, seq []*pres) {
	names := func(n int) []string {
		l := make([]string, n)
		for i := range l {
			l[i] = seq[i].name
		}
		return l
	}
	t.Case(func() string { return strings.Join(names(len(seq)), "; ") })
	chain := newChain()
	vlotus.Current = chain
	mgr, err := fcrpaymentmgr.NewFCRPaymentMgr(me.Hex, "http://lotus", "token")
	if err != nil {
		t.Violate("receive:new", err.Error(), nil)
		return
	}
	lanes := map[string]*laneM{}
	credited := make([]*big.Int, 4)
	for i := range credited {
		credited[i] = new(big.Int)
	}
	for i, p := range seq {
		if p.raise != 0 {
			chain.Channels[0].Add(big.NewInt(p.raise))
			continue
		}
		rep := func() interface{} {
			var ss []string
			for _, x := range seq[:i+1] {
				ss = append(ss, fmt.Sprintf("%s: Receive(%q, %q)", x.name, x.chStr, x.voucher))
			}
			return ss
		}
		if p.fault != "" {
			f, nth := p.fault, 1
			if strings.HasSuffix(f, "#2") {
				f, nth = strings.TrimSuffix(f, "#2"), 2
			}
			chain.Fault = func(m string) error {
				if m == f {
					nth--
					if nth == 0 {
						return errors.New("injected")
					}
				}
				return nil
			}
		}
		var got *big.Int
		var err error
		func() {
			defer func() {
				if r := recover(); r != nil {
					err = fmt.Errorf("panic: %v", r)
					t.Violate("receive:panic", fmt.Sprintf("%s: %v", p.name, r), rep())
				}
			}()
			got, err = mgr.Receive(p.chStr, p.voucher)
		}()
		hit := chain.Fault != nil
		chain.Fault = nil
		t.Transition()
		key := fmt.Sprintf("%d/%d", p.ch, p.lane)
		l := lanes[key]
		if l == nil {
			l = &laneM{red: new(big.Int)}
		}
		want := new(big.Int)
		acc := p.sound && p.nonce >= l.next && p.amount.Cmp(l.red) > 0
		if acc {
			want.Sub(p.amount, l.red)
			if new(big.Int).Add(credited[p.ch], want).Cmp(chain.Channels[p.ch].Bal()) > 0 {
				acc = false
			}
		}
		if err != nil {
			if acc && !p.may && !hit {
				t.Violate("receive:refused-good", fmt.Sprintf("%v: a sound voucher worth %v was refused: %v", names(i+1), want, err), rep())
				return
			}
			continue
		}
		if !acc || got == nil || got.Cmp(want) != 0 {
			t.Violate("receive:credited:"+p.name, fmt.Sprintf("%v: last voucher credited %v; should credit %v (accept=%v)", names(i+1), got, want, acc), rep())
			return
		}
		l.next, l.red = p.nonce+1, p.amount
		lanes[key] = l
		credited[p.ch].Add(credited[p.ch], want)
		if credited[p.ch].Cmp(chain.Channels[p.ch].Bal()) > 0 {
			t.Violate("receive:over-credit", fmt.Sprintf("%v: credited %v of %v", names(i+1), credited[p.ch], chain.Channels[p.ch].Bal()), rep())
		}
	}
	var ks []string
	for k, l := range lanes {
		ks = append(ks, fmt.Sprintf("%s:%d:%v", k, l.next, l.red))
	}
	sort.Strings(ks)
	st := fmt.Sprint(ks, chain.Channels[0].Bal())
	if t.State(st) {
		t.Sample(map[string]interface{}{"presented": names(len(seq)), "ledger": st})
	}
	t.Trace()
	t.Eval()
}

func all(t *vh.T, name string, ops []pres, depth int) {
	seq := make([]*pres, 0, depth)
	n := 0
	var rec func()
	rec = func() {
		if t.Over() || len(t.Keys()) > 8 {
			return
		}
		if len(seq) == depth {
			n++
			if t.Mine(n) {
				runSeq(t, seq)
			}
			return
		}
		for i := range ops {
			seq = append(seq, &ops[i])
			rec()
			seq = seq[:len(seq)-1]
		}
	}
	rec()
	if t.Over() {
		t.NotExhaustive(name + ": deadline")
	}
	t.Count(name+"_sequences", n/t.Shards)
	t.Note(name, fmt.Sprintf("%d presentations to depth %d", len(ops), depth))
}

func main() {
	vh.Main(func(t *vh.T) {
		logging.SetLogLevel("fatal")
		raise := pres{name: "balance of ch0 +6", raise: 6}
		core := []pres{v(0, 0, 0, 3), v(0, 0, 1, 5), v(0, 0, 4, 6), v(0, 0, 1, 8), v(0, 0, 0, 10), v(0, 0, 2, 11), v(0, 1, 0, 4), v(0, 1, 3, 6), v(1, 0, 0, 3), v(1, 0, 1, 10), raise}
		all(t, "ledger", core, t.Pick(4, 5))

		good := v(0, 0, 0, 3)
		good2 := v(0, 0, 1, 7)
		wide := []pres{good, good2, v(0, 1, 0, 4), v(1, 0, 0, 3), v(3, 0, 0, 3), raise}
		// the same channel written otherwise
		tp := v(0, 0, 1, 7)
		tp.name, tp.may = "ch0 other network prefix", true
		pre := "t"
		if tp.chStr[0] == 't' {
			pre = "f"
		}
		tp.chStr = pre + tp.chStr[1:]
		tp0 := v(0, 0, 0, 3)
		tp0.name, tp0.chStr, tp0.may = "ch0 other prefix, first voucher", pre+tp0.chStr[1:], true
		ida := v(0, 0, 0, 3)
		ida.name, ida.may = "ch0 by ID", true
		ida.chStr = vlotus.IDAddr(0).String()
		idv := v(0, 0, 2, 9)
		idv.name, idv.may = "ch0 by ID, voucher names ID", true
		idv.chStr = vlotus.IDAddr(0).String()
		idv.voucher = vlotus.Voucher(payer, vlotus.IDAddr(0), 0, 2, big.NewInt(9), nil)
		wide = append(wide, tp, tp0, ida, idv)
		// unsound ones
		wide = append(wide,
			v(2, 0, 0, 3), // pays someone else
			good2.but("presented on ch1", func(p *pres) { p.chStr = vlotus.ActorAddr(1).String(); p.ch = 1 }),
			v(1, 0, 1, 6).but("presented on ch0", func(p *pres) { p.chStr = vlotus.ActorAddr(0).String(); p.ch = 0 }),
			good2.but("presented on ch3 (other payer)", func(p *pres) { p.chStr = vlotus.ActorAddr(3).String(); p.ch = 3 }),
			good2.but("presented on no channel", func(p *pres) { p.chStr = vlotus.ActorAddr(9).String() }),
			good2.but("signed by another", func(p *pres) { p.voucher = vlotus.Voucher(q, vlotus.ActorAddr(0), 0, 1, big.NewInt(7), nil) }),
			good2.but("signed by me", func(p *pres) { p.voucher = vlotus.Voucher(me, vlotus.ActorAddr(0), 0, 1, big.NewInt(7), nil) }),
			mutated(good2, "amount raised after signing", func(sv *paych.SignedVoucher) { sv.Amount = lotusbig.NewInt(8) }),
			mutated(good2, "nonce raised after signing", func(sv *paych.SignedVoucher) { sv.Nonce = 9 }),
			mutated(good2, "lane changed after signing", func(sv *paych.SignedVoucher) { sv.Lane = 5 }),
			mutated(good2, "no signature", func(sv *paych.SignedVoucher) { sv.Signature = nil }),
			mutated(good2, "empty signature", func(sv *paych.SignedVoucher) { sv.Signature = &crypto2.Signature{Type: crypto2.SigTypeSecp256k1} }),
			mutated(good2, "BLS signature", func(sv *paych.SignedVoucher) {
				sv.Signature = &crypto2.Signature{Type: crypto2.SigTypeBLS, Data: make([]byte, 96)}
			}),
			mutated(good2, "flipped signature", func(sv *paych.SignedVoucher) { sv.Signature.Data[7] ^= 1 }),
			v(0, 0, 1, -4),
			v(0, 0, 1, 0),
			v(0, 2, math.MaxUint64, 5).but("(highest nonce)", func(p *pres) { p.sound, p.may = true, true }),
			v(0, 2, 3, 7),
			good2.but("truncated", func(p *pres) { p.voucher = p.voucher[:len(p.voucher)/2] }),
			good2.but("not base64", func(p *pres) { p.voucher = "!!" }),
			good2.but("empty", func(p *pres) { p.voucher = "" }),
			good2.but("cbor null", func(p *pres) { p.voucher = base64.RawURLEncoding.EncodeToString([]byte{0xf6}) }),
			good2.but("empty cbor array", func(p *pres) { p.voucher = base64.RawURLEncoding.EncodeToString([]byte{0x80}) }),
			good2.but("bad channel string", func(p *pres) { p.chStr = "f2zz" }),
			good2.but("empty channel string", func(p *pres) { p.chStr = "" }),
		)
		wide = append(wide,
			conditional(good2, "redeemable from a later epoch", func(sv *paych.SignedVoucher) { sv.TimeLockMin = 1 << 40 }),
			conditional(good2, "redeemable until epoch 1", func(sv *paych.SignedVoucher) { sv.TimeLockMax = 1 }),
			conditional(good2, "redeemable with a secret", func(sv *paych.SignedVoucher) { sv.SecretPreimage = []byte("hash of what only the payer knows") }),
			conditional(good2, "redeemable if another actor agrees", func(sv *paych.SignedVoucher) {
				sv.Extra = &paych.ModVerifyParams{Actor: vlotus.ActorAddr(7), Method: 2, Data: []byte{1}}
			}),
			conditional(good2, "settling much later", func(sv *paych.SignedVoucher) { sv.MinSettleHeight = 1 << 40 }),
			conditional(good2, "merging another lane", func(sv *paych.SignedVoucher) {
				m := reflect.MakeSlice(reflect.TypeOf(sv.Merges), 1, 1) // its type lies in another module
				m.Index(0).FieldByName("Lane").SetUint(1)
				m.Index(0).FieldByName("Nonce").SetUint(9)
				reflect.ValueOf(sv).Elem().FieldByName("Merges").Set(m)
			}),
		)
		for _, f := range []string{"StateReadState", "StateAccountKey", "StateAccountKey#2"} {
			g := v(0, 0, 1, 7)
			g.name, g.fault = g.name+" fail "+f, f
			wide = append(wide, g)
		}
		all(t, "wide", wide, 3)
		if t.Thorough() {
			all(t, "ledger6", core[:8], 6)
			all(t, "wide4", wide, 4)
		}
		// the node stops and starts again: its channels and their vouchers stay what they were
		for i, l := range [][]pres{{good}, {good, good2}, {good2, good}, {good2, v(0, 1, 0, 4), good2}} {
			if !t.Mine(i) {
				continue
			}
			vlotus.Current = newChain()
			for life := 0; life < 2; life++ {
				mgr, err := fcrpaymentmgr.NewFCRPaymentMgr(me.Hex, "http://lotus", "token")
				if err != nil {
					t.Violate("receive:new", err.Error(), nil)
					return
				}
				for _, p := range l {
					got, err := mgr.Receive(p.chStr, p.voucher)
					t.Transition()
					if life == 1 && err == nil && got.Sign() > 0 {
						t.Violate("receive:again-after-restart", fmt.Sprintf("%s was received, the node restarted, and it was credited again with %v", p.name, got), p.name)
					}
				}
			}
			t.Eval()
		}
		// channels in states that are not payment channels
		var odds []pres
		for i, a := range oddAddrs {
			g := good.but(fmt.Sprintf("on odd actor %d", i), func(p *pres) { p.chStr = a.String() })
			g.voucher = vlotus.Voucher(payer, a, 0, 0, big.NewInt(3), nil)
			odds = append(odds, g)
		}
		odds = append(odds, good, good2)
		all(t, "odd", odds, 3)
		// every prefix and every one-byte change of an encoded voucher
		raw, _ := base64.RawURLEncoding.DecodeString(good.voucher)
		muts := []pres{}
		for i := range raw {
			muts = append(muts, good.but(fmt.Sprintf("prefix %d", i), func(p *pres) { p.voucher = base64.RawURLEncoding.EncodeToString(raw[:i]) }))
			for _, x := range []byte{1, 0x80, 0xff, 0x20} {
				b := append([]byte(nil), raw...)
				b[i] ^= x
				muts = append(muts, good.but(fmt.Sprintf("byte %d ^ %x", i, x), func(p *pres) { p.voucher = base64.RawURLEncoding.EncodeToString(b) }))
			}
		}
		for i := range muts {
			if t.Mine(i) {
				runSeq(t, []*pres{&muts[i], &good2, &muts[i]})
				runSeq(t, []*pres{&good, &muts[i], &good2})
			}
		}
		t.Count("voucher_encodings", len(muts)/t.Shards)
		t.Assume("the Lotus node answers as the chain does (in-memory model in harness/common/verif/vlotus)")
	})
}
