//go:build go1.21

// C15: every history of reputation events (to a depth) against the documented
// arithmetic, and every interleaving of concurrent events.
package main

import (
	"fmt"
	"math/big"
	"sort"
	"strings"

	"github.com/ConsenSys/fc-retrieval/common/pkg/nodeid"
	"github.com/ConsenSys/fc-retrieval/common/verif/lin"
	"github.com/ConsenSys/fc-retrieval/common/verif/vh"
	"github.com/ConsenSys/fc-retrieval/common/verif/vsched"
	"github.com/ConsenSys/fc-retrieval/gateway/internal/reputation"
)

// the documented values (docs/docs/reputation.md, table 22)
const (
	maxRep, minRep, initRep = 10000, -10000, 10
)

type event struct {
	name  string
	delta int64
	do    func(n *nodeid.NodeID)
}

var r = reputation.GetSingleInstance()

// challenge is event 0
var events = []event{
	{"challenge", -1, nil},
	{"deposit", 1000, r.OnChainDeposit},
	{"std one offer", 10, r.ClientStdDiscOneCidOffer},
	{"std no offers", 1, r.ClientStdDiscNoCidOffers},
	{"std late", 1, r.ClientStdDiscLateCidOffers},
	{"std non payment", -100, r.ClientStdDiscNonPayment},
	{"dht one offer", 10, r.ClientDhtDiscOneCidOffer},
	{"dht no offers", 1, r.ClientDhtDiscNoCidOffers},
	{"dht late", 1, r.ClientDhtDiscLateCidOffers},
	{"dht non payment", -300, r.ClientDhtDiscNonPayment},
	{"micro payment", 1, r.ClientMicroPayment},
	{"invalid message", -10, r.ClientInvalidMessage},
}

var serial int64

func fresh() *nodeid.NodeID {
	serial++
	n := new(big.Int).Lsh(big.NewInt(serial), 3)
	id, err := nodeid.NewNodeID(n)
	if err != nil {
		panic(err)
	}
	return id
}

// model of one client
type rep struct {
	known bool
	v     int64
}

func (m *rep) event(i int) int64 {
	if i == 0 && !m.known {
		m.known, m.v = true, initRep
	}
	m.v += events[i].delta
	if m.v > maxRep {
		m.v = maxRep
	}
	if m.v < minRep {
		m.v = minRep
	}
	return m.v
}

// op of a history: client c, event e (e>=0), or set to starts[-e-1]
type op struct{ c, e int }

var sets = []int64{maxRep, maxRep - 1, maxRep - 9, maxRep - 10, maxRep - 1000, minRep, minRep + 1, minRep + 99, minRep + 300, 0, 1}

func (o op) String() string {
	if o.e < 0 {
		return fmt.Sprintf("c%d set %d", o.c, sets[-o.e-1])
	}
	return fmt.Sprintf("c%d %s", o.c, events[o.e].name)
}

func show(l []op) string {
	s := make([]string, len(l))
	for i := range l {
		s[i] = l[i].String()
	}
	return strings.Join(s, "; ")
}

func history(t *vh.T, l []op) {
	t.Case(func() string { return show(l) })
	ids := []*nodeid.NodeID{fresh(), fresh()}
	m := make([]rep, 2)
	t.Try("reputation", show(l), func() {
		for k, o := range l {
			t.Transition()
			switch {
			case o.e < 0:
				r.SetClientReputation(ids[o.c], sets[-o.e-1])
				m[o.c] = rep{true, sets[-o.e-1]}
			case o.e == 0:
				w := m[o.c].event(0)
				if g := r.ClientEstablishmentChallenge(ids[o.c]); g != w {
					t.Violate("challenge-value", fmt.Sprintf("%s: step %d returned %d, want %d", show(l), k, g, w), show(l))
				}
			default:
				m[o.c].event(o.e)
				events[o.e].do(ids[o.c])
			}
			for c := range ids {
				g, ok := r.GetClientReputation(ids[c])
				if ok != m[c].known || r.ClientExists(ids[c]) != ok || ok && g != m[c].v {
					t.Violate("value", fmt.Sprintf("%s: after step %d client %d has %d (established %v), want %d (%v)", show(l), k, c, g, ok, m[c].v, m[c].known), show(l))
				}
			}
			t.State(fmt.Sprint(m))
		}
	})
	t.Eval()
	t.Trace()
}

func sequential(t *vh.T) {
	n := 0
	run := func(l []op) {
		n++
		if t.Mine(n / 64) {
			history(t, append([]op{}, l...))
		}
	}
	// one client: every start, then every event sequence to the depth
	depth := t.Pick(4, 5)
	var all func(l []op, d int)
	all = func(l []op, d int) {
		if d == 0 {
			run(l)
			return
		}
		for e := range events {
			all(append(l, op{0, e}), d-1)
		}
	}
	all([]op{{0, 0}}, depth)
	for s := range sets {
		all([]op{{0, -s - 1}}, depth-1)
	}
	// two clients: every sequence of a smaller alphabet, legal events only
	small := []int{0, 1, 2, 9, 11, -1, -6}
	d2 := t.Pick(5, 6)
	var two func(l []op, k0, k1 bool, d int)
	two = func(l []op, k0, k1 bool, d int) {
		if d == 0 {
			run(l)
			return
		}
		for c := 0; c < 2; c++ {
			for _, e := range small {
				k := k0
				if c == 1 {
					k = k1
				}
				if e > 0 && !k {
					continue // events happen to established clients
				}
				two(append(l, op{c, e}), k0 || c == 0, k1 || c == 1, d-1)
			}
		}
	}
	two(nil, false, false, d2)
	// long runs through each bound and back
	for e := 1; e < len(events); e++ {
		for b := range events {
			l := []op{{0, 0}}
			for i := 0; i < 12; i++ {
				l = append(l, op{0, e})
			}
			for s := range sets {
				l2 := append(append([]op{}, l...), op{0, -s - 1}, op{0, e}, op{0, e}, op{0, b}, op{0, e})
				run(l2)
			}
		}
	}
	t.Sample(map[string]interface{}{"one-client depth": depth, "two-client depth": d2, "histories": n})
}

// concurrent scenarios -------------------------------------------------------

type scenario struct {
	name   string
	before []op
	th     [][]op // e == -100: look up
	bound  [2]int
}

const look = -100

func concurrent(t *vh.T, sc scenario) {
	t.Explore(vsched.Config{Name: sc.name, MaxPreempt: sc.bound[t.Pick(0, 1)], MaxExecs: 400000}, func(x *vsched.X) {
		ids := []*nodeid.NodeID{fresh(), fresh()}
		do := func(o op) string {
			switch {
			case o.e == look:
				g, ok := r.GetClientReputation(ids[o.c])
				return fmt.Sprint(g, ok)
			case o.e < 0:
				r.SetClientReputation(ids[o.c], sets[-o.e-1])
				return ""
			case o.e == 0:
				return fmt.Sprint(r.ClientEstablishmentChallenge(ids[o.c]))
			}
			events[o.e].do(ids[o.c])
			return ""
		}
		for _, o := range sc.before {
			do(o)
		}
		n := 0
		for _, th := range sc.th {
			n += len(th)
		}
		calls := make([]lin.Call, n)
		ops := make([]op, n)
		slot := 0
		for i, th := range sc.th {
			th, first := th, slot
			slot += len(th)
			x.Go(fmt.Sprintf("t%d", i), func() {
				for j, o := range th {
					k := first + j
					vsched.Point("call")
					ops[k] = o
					calls[k] = lin.Call{Name: "", Start: x.Steps(), End: 1 << 30}
					calls[k].Result = do(o)
					calls[k].End = x.Steps()
				}
			})
		}
		x.Join()
		fin := [2]string{do(op{0, look}), do(op{1, look})}
		m := make([]rep, 2)
		apply := func(o op) string {
			switch {
			case o.e == look:
				return fmt.Sprint(m[o.c].v, m[o.c].known)
			case o.e < 0:
				m[o.c] = rep{true, sets[-o.e-1]}
				return ""
			case o.e == 0:
				return fmt.Sprint(m[o.c].event(0))
			}
			m[o.c].event(o.e)
			return ""
		}
		var l []string
		for i := range calls {
			calls[i].Name = ops[i].String2()
			l = append(l, calls[i].Name+"="+calls[i].Result)
		}
		if !lin.Check(calls, func() {
			m = make([]rep, 2)
			for _, o := range sc.before {
				apply(o)
			}
		}, func(i int) string { return apply(ops[i]) }, func() bool {
			return apply(op{0, look}) == fin[0] && apply(op{1, look}) == fin[1]
		}) {
			x.Fail("lost-event", "no one-at-a-time order of %v explains the final reputations %v", l, fin)
			return
		}
		sort.Strings(l)
		x.Outcome(strings.Join(l, "; ") + fmt.Sprint(fin))
	})
}

func (o op) String2() string {
	if o.e == look {
		return fmt.Sprintf("c%d look", o.c)
	}
	return o.String()
}

func main() {
	vh.Main(func(t *vh.T) {
		sequential(t)
		o := func(l ...op) []op { return l }
		th := func(l ...[]op) [][]op { return l }
		est := o(op{0, 0}, op{1, 0})
		top := o(op{0, -1})
		scs := []scenario{
			{"first-challenges", nil, th(o(op{0, 0}), o(op{0, 0})), [2]int{4, 6}},
			{"first-challenges-three", nil, th(o(op{0, 0}), o(op{0, 0}), o(op{0, 0})), [2]int{3, 4}},
			{"challenge-then-event", nil, th(o(op{0, 0}, op{0, 1}), o(op{0, 0}, op{0, 9})), [2]int{3, 5}},
			{"two-clients-first", nil, th(o(op{0, 0}, op{0, 1}), o(op{1, 0}, op{1, 9})), [2]int{3, 5}},
			{"events", est, th(o(op{0, 1}, op{0, 9}), o(op{0, 5}, op{0, 2})), [2]int{4, 6}},
			{"events-three", est, th(o(op{0, 1}), o(op{0, 9}), o(op{0, 11})), [2]int{4, 6}},
			{"events-look", est, th(o(op{0, 1}, op{1, 9}), o(op{0, look}, op{1, look}, op{0, look})), [2]int{4, 6}},
			{"at-the-top", top, th(o(op{0, 2}), o(op{0, 11}), o(op{0, look})), [2]int{4, 6}},
			{"first-challenge-look", nil, th(o(op{0, 0}), o(op{0, look}, op{0, look})), [2]int{4, 6}},
			{"set-and-events", est, th(o(op{0, -7}), o(op{0, 1}, op{0, 2})), [2]int{4, 6}},
			{"set-and-first-challenge", nil, th(o(op{0, -7}), o(op{0, 0})), [2]int{4, 6}},
		}
		for i, sc := range scs {
			if t.Mine(i) {
				concurrent(t, sc)
			}
		}
		t.Assume("an administrator's setting within the limits replaces the value; a setting outside the limits is not judged")
	})
}
