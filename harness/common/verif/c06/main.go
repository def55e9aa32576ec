//go:build go1.21

// C06: every history of top-ups and payments against a ledger model.
package main

import (
	"errors"
	"fmt"
	"math/big"
	"strings"

	"github.com/ConsenSys/fc-retrieval/common/pkg/fcrpaymentmgr"
	"github.com/ConsenSys/fc-retrieval/common/pkg/logging"
	"github.com/ConsenSys/fc-retrieval/common/verif/vh"
	"github.com/ConsenSys/fc-retrieval/common/verif/vlotus"
	"github.com/ConsenSys/fc-retrieval/common/verif/vsched"
)

var me = vlotus.NewAccount(1)
var peers = []vlotus.Account{vlotus.NewAccount(50), vlotus.NewAccount(90)}

type op struct {
	top   bool
	peer  int
	lane  uint64
	amt   string
	fault string // "", exec, or the name of a chain call that fails
}

func (o op) String() string {
	if o.top {
		return fmt.Sprintf("Topup(peer%d,%s%s)", o.peer, o.amt, map[bool]string{true: "", false: ",fail:" + o.fault}[o.fault == ""])
	}
	return fmt.Sprintf("Pay(peer%d,lane%d,%s)", o.peer, o.lane, o.amt)
}

type lane struct {
	issued bool
	nonce  uint64
	total  *big.Int
}
type chanModel struct {
	open   bool
	bal    *big.Int
	spent  *big.Int
	lanes  map[uint64]*lane
	addr   string
}

func bigs(s string) *big.Int { n, _ := new(big.Int).SetString(s, 10); return n }

func runSeq(t *vh.T, seq []op) {
	names := make([]string, len(seq))
	for i, o := range seq {
		names[i] = o.String()
	}
	t.Case(func() string { return strings.Join(names, "; ") })
	chain := &vlotus.Chain{}
	vlotus.Current = chain
	mgr, err := fcrpaymentmgr.NewFCRPaymentMgr(me.Hex, "http://lotus", "token")
	if err != nil {
		t.Violate("pay:new", err.Error(), names)
		return
	}
	// The caller's amounts: one big.Int per distinct amount, reused for every call,
	// as settings values are; built with spare capacity like parsed numbers.
	amts := map[string]*big.Int{}
	for _, o := range seq {
		if amts[o.amt] == nil {
			amts[o.amt] = bigs(o.amt)
		}
	}
	model := []*chanModel{{bal: new(big.Int), spent: new(big.Int), lanes: map[uint64]*lane{}}, {bal: new(big.Int), spent: new(big.Int), lanes: map[uint64]*lane{}}}
	for i, o := range seq {
		rep := map[string]interface{}{"history": names[:i+1]}
		m := model[o.peer]
		a := amts[o.amt]
		amt := bigs(o.amt)
		ok := t.Try("pay:"+o.String(), rep, func() {
			if o.top {
				chain.ExecFail = func(*big.Int) bool { return o.fault == "exec" }
				chain.Fault = func(meth string) error {
					if meth == o.fault {
						return errors.New("injected")
					}
					return nil
				}
				before := len(chain.Channels)
				err := mgr.Topup(peers[o.peer].Addr.String(), a)
				chain.Fault, chain.ExecFail = nil, nil
				if o.fault != "" {
					if err == nil {
						t.Violate("topup:false-success", fmt.Sprintf("top-up reported success although %s failed", o.fault), rep)
					}
					return
				}
				if err != nil {
					t.Violate("topup:false-failure", "top-up failed: "+err.Error(), rep)
					return
				}
				want := before
				if !m.open {
					want++
				}
				if len(chain.Channels) != want {
					t.Violate("topup:channels", fmt.Sprintf("%d channels on chain, want %d", len(chain.Channels), want), rep)
					return
				}
				if !m.open {
					m.open = true
					c := chain.Channels[len(chain.Channels)-1]
					m.addr = c.Addr.String()
					if c.To != peers[o.peer].Addr || c.From != me.Addr {
						t.Violate("topup:wrong-ends", "channel created between the wrong parties", rep)
					}
				}
				m.bal.Add(m.bal, amt)
				for _, c := range chain.Channels {
					if c.Addr.String() == m.addr && c.Bal().Cmp(m.bal) != 0 {
						t.Violate("topup:amount", fmt.Sprintf("on-chain balance %v, want %v", c.Bal(), m.bal), rep)
					}
				}
				return
			}
			ch, v, need, err := mgr.Pay(peers[o.peer].Addr.String(), o.lane, a)
			fits := m.open && new(big.Int).Add(m.spent, amt).Cmp(m.bal) <= 0
			if !fits {
				if err != nil || !need || v != "" {
					t.Violate("pay:should-need-topup", fmt.Sprintf("balance %v spent %v pay %v: got voucher %q needTopup %v err %v", m.bal, m.spent, amt, v, need, err), rep)
				}
				return
			}
			if err != nil || need || v == "" {
				t.Violate("pay:refused", fmt.Sprintf("balance %v spent %v pay %v: got voucher %q needTopup %v err %v", m.bal, m.spent, amt, v, need, err), rep)
				return
			}
			sv, err := vlotus.Check(v, me.Addr)
			if err != nil {
				t.Violate("pay:bad-voucher", err.Error(), rep)
				return
			}
			l := m.lanes[o.lane]
			if l == nil {
				l = &lane{total: new(big.Int)}
				m.lanes[o.lane] = l
			}
			l.total.Add(l.total, amt)
			m.spent.Add(m.spent, amt)
			if ch != m.addr || sv.ChannelAddr.String() != m.addr {
				t.Violate("pay:wrong-channel", fmt.Sprintf("voucher for %v returned channel %v, want %v", sv.ChannelAddr, ch, m.addr), rep)
			}
			if sv.Lane != o.lane {
				t.Violate("pay:wrong-lane", fmt.Sprintf("lane %d want %d", sv.Lane, o.lane), rep)
			}
			if sv.Amount.Int.Cmp(l.total) != 0 {
				t.Violate("pay:amount", fmt.Sprintf("voucher amount %v, want the lane's running total %v", sv.Amount, l.total), rep)
			}
			if l.issued && sv.Nonce <= l.nonce {
				t.Violate("pay:nonce", fmt.Sprintf("nonce %d after %d on the same lane", sv.Nonce, l.nonce), rep)
			}
			l.issued, l.nonce = true, sv.Nonce
		})
		t.Transition()
		for k, v := range amts {
			if v.Cmp(bigs(k)) != 0 {
				t.Violate("pay:amount-modified", fmt.Sprintf("after %v the caller's amount %s became %v", o, k, v), rep)
				amts[k] = bigs(k)
			}
		}
		if !ok || len(t.Keys()) > 8 {
			return
		}
	}
	// canonical final state
	var b strings.Builder
	for _, m := range model {
		fmt.Fprintf(&b, "%v/%v/%v", m.open, m.bal, m.spent)
		for _, ln := range []uint64{0, 1, 7, 1 << 63} {
			if l := m.lanes[ln]; l != nil {
				fmt.Fprintf(&b, " %d:%v@%d", ln, l.total, l.nonce)
			}
		}
		b.WriteString("|")
	}
	if t.State(b.String()) {
		t.Sample(map[string]interface{}{"history": names, "final": b.String()})
	}
	t.Trace()
	t.Eval()
}

func all(t *vh.T, name string, ops []op, depth int) {
	seq := make([]op, 0, depth)
	n := 0
	var rec func()
	rec = func() {
		if t.Over() || len(t.Keys()) > 8 {
			return
		}
		if len(seq) == depth {
			n++
			if t.Mine(n) {
				runSeq(t, seq)
			}
			return
		}
		for _, o := range ops {
			seq = append(seq, o)
			rec()
			seq = seq[:len(seq)-1]
		}
	}
	rec()
	if t.Over() {
		t.NotExhaustive(name + ": deadline")
	}
	t.Count(name+"_histories", n/t.Shards)
}

// waiting: receipts that arrive late (virtual time).
func waiting(t *vh.T) {
	for _, d := range []int{1, 3, 20} {
		for _, twice := range []bool{false, true} {
			rep := fmt.Sprintf("receipt delayed %d polls, second top-up %v", d, twice)
			f := vsched.Run(func(x *vsched.X) {
				vlotus.Current = &vlotus.Chain{Delay: d}
				mgr, _ := fcrpaymentmgr.NewFCRPaymentMgr(me.Hex, "http://lotus", "token")
				if err := mgr.Topup(peers[0].Addr.String(), big.NewInt(5)); err != nil {
					x.Fail("late", "%v", err)
				}
				if twice {
					if err := mgr.Topup(peers[0].Addr.String(), big.NewInt(5)); err != nil {
						x.Fail("late", "%v", err)
					}
				}
				want := int64(5)
				if twice {
					want = 10
				}
				if _, v, need, err := mgr.Pay(peers[0].Addr.String(), 0, big.NewInt(want)); v == "" || need || err != nil {
					x.Fail("late", "cannot spend what was topped up: need=%v err=%v", need, err)
				}
			})
			if f != nil {
				t.Violate("topup:late-receipt:"+f.Key, f.Detail, rep)
			}
			t.Eval()
		}
	}
}

func main() {
	vh.Main(func(t *vh.T) {
		logging.SetLogLevel("fatal")
		waiting(t)
		big1 := "100000000000000000000000000000000000000" // > 2^64: multi-word amounts
		_ = big1
		core := []op{
			{top: true, peer: 0, amt: "5"}, {top: true, peer: 0, amt: "3"}, {top: true, peer: 0, amt: "5", fault: "exec"},
			{peer: 0, lane: 0, amt: "2"}, {peer: 0, lane: 0, amt: "5"}, {peer: 0, lane: 1, amt: "3"}, {peer: 0, lane: 1, amt: "1"},
			{top: true, peer: 1, amt: "5"}, {peer: 1, lane: 0, amt: "5"}, {peer: 1, lane: 0, amt: "2"},
		}
		all(t, "core", core, t.Pick(5, 6))
		faults := []op{
			{top: true, peer: 0, amt: "5"}, {peer: 0, lane: 0, amt: "5"}, {peer: 0, lane: 1 << 63, amt: "4"},
			{top: true, peer: 0, amt: "5", fault: "MpoolGetNonce"}, {top: true, peer: 0, amt: "5", fault: "GasEstimateGasLimit"},
			{top: true, peer: 0, amt: "5", fault: "GasEstimateGasPremium"}, {top: true, peer: 0, amt: "5", fault: "GasEstimateFeeCap"},
			{top: true, peer: 0, amt: "5", fault: "MpoolPush"}, {top: true, peer: 0, amt: "5", fault: "exec"},
		}
		all(t, "faults", faults, t.Pick(4, 5))
		wide := []op{
			{top: true, peer: 0, amt: big1}, {top: true, peer: 0, amt: "18446744073709551615"}, {top: true, peer: 0, amt: "1"},
			{peer: 0, lane: 0, amt: "18446744073709551615"}, {peer: 0, lane: 0, amt: "1"}, {peer: 0, lane: 7, amt: big1}, {peer: 0, lane: 7, amt: "0"},
		}
		all(t, "wide", wide, t.Pick(5, 6))
		t.Assume("amounts asked for are not negative; the chain is the in-memory model in harness/common/verif/vlotus")
	})
}
