//go:build go1.21

// C08: every interleaving (to a preemption bound) of concurrent top-ups,
// payments and receipts, checked for linearizability against a ledger model.
package main

import (
	"fmt"
	"math/big"
	"sort"
	"strings"

	"github.com/ConsenSys/fc-retrieval/common/pkg/fcrpaymentmgr"
	"github.com/ConsenSys/fc-retrieval/common/pkg/logging"
	"github.com/ConsenSys/fc-retrieval/common/verif/lin"
	"github.com/ConsenSys/fc-retrieval/common/verif/vh"
	"github.com/ConsenSys/fc-retrieval/common/verif/vlotus"
	"github.com/ConsenSys/fc-retrieval/common/verif/vsched"
)

var (
	me    = vlotus.NewAccount(1)
	payer = vlotus.NewAccount(50)
	peers = []vlotus.Account{vlotus.NewAccount(60), vlotus.NewAccount(90)}
)

type call struct {
	kind string // top, pay, recv
	who  int    // peer, or channel index
	lane uint64
	n    uint64
	amt  int64
}

func (c call) String() string {
	switch c.kind {
	case "top":
		return fmt.Sprintf("top(%d,%d)", c.who, c.amt)
	case "pay":
		return fmt.Sprintf("pay(%d,l%d,%d)", c.who, c.lane, c.amt)
	}
	return fmt.Sprintf("recv(ch%d,l%d,n%d,%d)", c.who, c.lane, c.n, c.amt)
}

type scenario struct {
	name    string
	before  []call
	threads [][]call
	bound   [2]int
}

// model ------------------------------------------------------------------

type lane struct{ next, red int64 }
type ch struct {
	open       bool
	bal, spent int64
	lanes      map[uint64]*lane
}
type model struct {
	out [2]ch
	in  [2]ch
}

func (m *model) reset() {
	*m = model{}
	for i := range m.out {
		m.out[i].lanes = map[uint64]*lane{}
		m.in[i] = ch{open: true, bal: 10, lanes: map[uint64]*lane{}}
	}
}

func (m *model) do(c call) string {
	switch c.kind {
	case "top":
		o := &m.out[c.who]
		o.open = true
		o.bal += c.amt
		return "ok"
	case "pay":
		o := &m.out[c.who]
		if !o.open || o.spent+c.amt > o.bal {
			return "need-topup"
		}
		l := o.lanes[c.lane]
		if l == nil {
			l = &lane{}
			o.lanes[c.lane] = l
		}
		o.spent += c.amt
		l.red += c.amt
		l.next++
		return fmt.Sprintf("voucher lane %d nonce#%d amount %d", c.lane, l.next-1, l.red)
	}
	o := &m.in[c.who]
	l := o.lanes[c.lane]
	if l == nil {
		l = &lane{}
	}
	v := c.amt - l.red
	if int64(c.n) < l.next || v <= 0 || o.spent+v > o.bal {
		return "refused"
	}
	o.lanes[c.lane] = l
	l.next, l.red = int64(c.n)+1, c.amt
	o.spent += v
	return fmt.Sprintf("credited %d", v)
}

// ------------------------------------------------------------------------

func inChan(i int) *vlotus.Channel {
	return vlotus.NewChannel(vlotus.ActorAddr(100+i), payer.Addr, me.Addr, big.NewInt(10))
}

var voucherCache = map[call]string{}

func voucher(c call) string {
	if s, ok := voucherCache[c]; ok {
		return s
	}
	s := vlotus.Voucher(payer, vlotus.ActorAddr(100+c.who), c.lane, c.n, big.NewInt(c.amt), nil)
	voucherCache[c] = s
	return s
}

func do(mgr *fcrpaymentmgr.FCRPaymentMgr, c call, v string) (string, string) {
	switch c.kind {
	case "top":
		if err := mgr.Topup(peers[c.who].Addr.String(), big.NewInt(c.amt)); err != nil {
			return "error " + err.Error(), ""
		}
		return "ok", ""
	case "pay":
		_, s, need, err := mgr.Pay(peers[c.who].Addr.String(), c.lane, big.NewInt(c.amt))
		switch {
		case err != nil:
			return "error " + err.Error(), ""
		case need:
			return "need-topup", s
		}
		return "voucher", s
	}
	x, err := mgr.Receive(vlotus.ActorAddr(100+c.who).String(), v)
	if err != nil {
		return "refused", ""
	}
	return "credited " + x.String(), ""
}

func run(t *vh.T, sc scenario) {
	t.Explore(vsched.Config{Name: sc.name, MaxPreempt: sc.bound[t.Pick(0, 1)], MaxExecs: 400000}, func(x *vsched.X) {
		chain := &vlotus.Chain{Channels: []*vlotus.Channel{inChan(0), inChan(1)}, Points: true}
		vlotus.Current = chain
		mgr, err := fcrpaymentmgr.NewFCRPaymentMgr(me.Hex, "http://lotus", "token")
		if err != nil {
			x.Fail("new", "%v", err)
			return
		}
		// one slot per call, filled by the thread that makes it
		n := len(sc.before)
		for _, th := range sc.threads {
			n += len(th)
		}
		calls := make([]lin.Call, n)
		cs := make([]call, n)
		vouchers := make([]string, n)
		step := func(k int, c call, v string) {
			calls[k] = lin.Call{Name: c.String(), Start: x.Steps(), End: 1 << 30}
			cs[k] = c
			vsched.Point("call " + c.kind)
			r, s := do(mgr, c, v)
			vouchers[k] = s
			calls[k].Result, calls[k].End = r, x.Steps()
		}
		slot := 0
		for _, c := range sc.before {
			v := ""
			if c.kind == "recv" {
				v = voucher(c)
			}
			step(slot, c, v)
			slot++
		}
		for i, th := range sc.threads {
			th := th
			vs := make([]string, len(th))
			for j, c := range th {
				if c.kind == "recv" {
					vs[j] = voucher(c)
				}
			}
			first := slot
			slot += len(th)
			x.Go(fmt.Sprintf("t%d", i), func() {
				for j, c := range th {
					step(first+j, c, vs[j])
				}
			})
		}
		x.Join()
		// fill in what the vouchers say; nonces are compared by rank in their lane
		type issued struct {
			call int
			n    uint64
		}
		byLane := map[string][]issued{}
		for i, c := range cs {
			if calls[i].Result != "voucher" {
				continue
			}
			sv, err := vlotus.Check(vouchers[i], me.Addr)
			if err != nil {
				x.Fail("bad-voucher", "%v", err)
				return
			}
			k := fmt.Sprint(sv.ChannelAddr, sv.Lane)
			byLane[k] = append(byLane[k], issued{i, sv.Nonce})
			calls[i].Result = fmt.Sprintf("voucher lane %d nonce#%%d amount %v", sv.Lane, sv.Amount)
			if f := chain.Find(sv.ChannelAddr); f == nil || f.To != peers[c.who].Addr {
				x.Fail("wrong-channel", "voucher for %v", sv.ChannelAddr)
			}
		}
		for k, l := range byLane {
			sort.Slice(l, func(a, b int) bool { return l[a].n < l[b].n })
			for i, is := range l {
				if i > 0 && l[i-1].n == is.n {
					x.Fail("same-nonce", "two vouchers on %s have nonce %d", k, is.n)
				}
				calls[is.call].Result = fmt.Sprintf(calls[is.call].Result, i)
			}
		}
		var m model
		final := func() bool {
			for p := range peers {
				n, bal := 0, int64(0)
				for _, c := range chain.Channels {
					if c.To == peers[p].Addr {
						n++
						bal += c.Bal().Int64()
					}
				}
				if n > 1 || (n == 1) != m.out[p].open || bal != m.out[p].bal {
					return false
				}
			}
			// what can still be spent and credited must agree as well
			return true
		}
		show := make([]string, len(calls))
		for i, c := range calls {
			show[i] = fmt.Sprintf("[%d,%d] %s = %s", c.Start, c.End, c.Name, c.Result)
		}
		if !lin.Check(calls, m.reset, func(i int) string { return m.do(cs[i]) }, final) {
			var st []string
			for _, c := range chain.Channels {
				st = append(st, fmt.Sprintf("to %v holds %v", c.To, c.Bal()))
			}
			x.Fail("not-serialisable", "no one-at-a-time order explains:\n%s\nchain: %s", strings.Join(show, "\n"), strings.Join(st, "; "))
			return
		}
		// afterwards, the rest of each balance must be exactly what can still be spent
		for p := range peers {
			o := &m.out[p]
			if !o.open {
				continue
			}
			rest := o.bal - o.spent
			if r, _ := do(mgr, call{"pay", p, 99, 0, rest + 1}, ""); r != "need-topup" {
				x.Fail("overspend", "with %d left, paying %d gave %s", rest, rest+1, r)
			}
			if rest > 0 {
				if r, _ := do(mgr, call{"pay", p, 99, 0, rest}, ""); r != "voucher" {
					x.Fail("lost-funds", "with %d left, paying it gave %s", rest, r)
				}
			}
		}
		var res []string
		for _, c := range calls {
			res = append(res, c.Name+"="+c.Result)
		}
		sort.Strings(res)
		x.Outcome(strings.Join(res, "; "))
	})
}

func main() {
	vh.Main(func(t *vh.T) {
		logging.SetLogLevel("fatal")
		top := func(p int, a int64) call { return call{kind: "top", who: p, amt: a} }
		pay := func(p int, l uint64, a int64) call { return call{kind: "pay", who: p, lane: l, amt: a} }
		recv := func(c int, l, n uint64, a int64) call { return call{kind: "recv", who: c, lane: l, n: n, amt: a} }
		th := func(l ...[]call) [][]call { return l }
		o := func(l ...call) []call { return l }
		scs := []scenario{
			{"top-top-new", nil, th(o(top(0, 5)), o(top(0, 3))), [2]int{3, 4}},
			{"top-top-known", o(top(0, 2)), th(o(top(0, 5)), o(top(0, 3))), [2]int{3, 4}},
			{"top-top-two-new", nil, th(o(top(0, 5)), o(top(1, 3))), [2]int{3, 4}},
			{"top-top-two-known", o(top(0, 1), top(1, 1)), th(o(top(0, 5)), o(top(1, 3))), [2]int{2, 3}},
			{"top-pay-new", nil, th(o(top(0, 5), pay(0, 0, 3)), o(pay(0, 0, 2))), [2]int{3, 4}},
			{"top-pay-known", o(top(0, 2)), th(o(top(0, 5)), o(pay(0, 0, 4), pay(0, 1, 2))), [2]int{3, 4}},
			{"pay-pay", o(top(0, 5)), th(o(pay(0, 0, 3)), o(pay(0, 0, 2))), [2]int{4, 5}},
			{"pay-pay-overspend", o(top(0, 5)), th(o(pay(0, 0, 3)), o(pay(0, 1, 3))), [2]int{4, 5}},
			{"pay-pay-pay", o(top(0, 5)), th(o(pay(0, 0, 3)), o(pay(0, 0, 2), pay(0, 0, 1)), o(pay(0, 1, 2))), [2]int{2, 3}},
			{"top-top-top-new", nil, th(o(top(0, 5)), o(top(0, 3)), o(top(0, 1))), [2]int{1, 2}},
			{"top-pay-three", nil, th(o(top(0, 5), pay(0, 0, 5)), o(top(0, 3)), o(pay(0, 0, 3))), [2]int{1, 2}},
			{"recv-same-new", nil, th(o(recv(0, 0, 0, 4)), o(recv(0, 0, 0, 4))), [2]int{3, 4}},
			{"recv-same-known", o(recv(0, 0, 0, 2)), th(o(recv(0, 0, 1, 4)), o(recv(0, 0, 1, 4))), [2]int{3, 4}},
			{"recv-seq-new", nil, th(o(recv(0, 0, 0, 4)), o(recv(0, 0, 1, 6))), [2]int{3, 4}},
			{"recv-lanes-overdraw", nil, th(o(recv(0, 0, 0, 6)), o(recv(0, 1, 0, 6))), [2]int{3, 4}},
			{"recv-two-channels", nil, th(o(recv(0, 0, 0, 6)), o(recv(1, 0, 0, 6))), [2]int{3, 4}},
			{"recv-three", nil, th(o(recv(0, 0, 0, 4)), o(recv(0, 0, 0, 4)), o(recv(0, 1, 0, 3))), [2]int{1, 2}},
			{"recv-chain", nil, th(o(recv(0, 0, 0, 4), recv(0, 0, 2, 7)), o(recv(0, 0, 1, 5), recv(0, 0, 0, 4))), [2]int{2, 3}},
			{"recv-pay", o(top(0, 5)), th(o(recv(0, 0, 0, 4)), o(pay(0, 0, 5))), [2]int{3, 4}},
		}
		for i, sc := range scs {
			if t.Mine(i) {
				run(t, sc)
			}
		}
		t.Assume("scheduling points are the synchronisation operations of the payment manager and every chain call; schedules with more preemptions than the stated bound are not explored")
	})
}
