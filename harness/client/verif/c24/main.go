//go:build go1.21

// C24: a client talks only to gateways it chose and proved.
package main

import (
	"encoding/base64"
	"errors"
	"fmt"
	"os"
	"os/exec"
	"sort"
	"strings"
	"time"

	"github.com/ConsenSys/fc-retrieval/client/pkg/fcrclient"
	"github.com/ConsenSys/fc-retrieval/common/pkg/fcrmessages"
	"github.com/ConsenSys/fc-retrieval/common/pkg/nodeid"

	"github.com/ConsenSys/fc-retrieval/client/verif/vclient"
	"github.com/ConsenSys/fc-retrieval/common/verif/lin"
	"github.com/ConsenSys/fc-retrieval/common/verif/vh"
	"github.com/ConsenSys/fc-retrieval/common/verif/vlotus"
	"github.com/ConsenSys/fc-retrieval/common/verif/vnode"
	"github.com/ConsenSys/fc-retrieval/common/verif/vreq"
	"github.com/ConsenSys/fc-retrieval/common/verif/vsched"
)

type msg = fcrmessages.FCRMessage

var (
	t   *vh.T
	w   *vclient.World
	all []*vnode.Ident // three complete gateways, then an incomplete one, one with an odd key, an unknown one

	challenges = map[string]int{}    // ever sent
	oldReply   = map[string]*msg{}   // a genuine reply to an earlier challenge, by gateway
	oldChal    = map[string]string{} // and that challenge
	last       string                // the challenge before, to anyone
	answers    = []string{"genuine", "refused", "another key", "another gateway's key", "unsigned", "damaged signature", "another type", "another gateway's ID", "another gateway's reply", "an earlier challenge", "the earlier reply", "no challenge", "half the challenge", "the challenge decoded", "an empty body", "no JSON", "the request itself"}
)

// reply of a kind to an establishment request.
func reply(kind string, g *vnode.Ident, m *msg) (*msg, error) {
	_, ch, _, err := fcrmessages.DecodeClientEstablishmentRequest(m)
	vnode.Must(err)
	o := w.G[0]
	if o == g {
		o = w.G[1]
	}
	enc := func(id *nodeid.NodeID, ch string) *msg {
		r, err := fcrmessages.EncodeClientEstablishmentResponse(id, ch)
		vnode.Must(err)
		return r
	}
	old, oldReq := last, oldReply[g.Hex]
	if c, ok := oldChal[g.Hex]; ok {
		old = c
	}
	if oldReq == nil {
		oldReq = g.Sign(enc(g.ID, base64.StdEncoding.EncodeToString(make([]byte, 32))), nil)
	}
	last = ch
	r := enc(g.ID, ch)
	if kind == "genuine" {
		oldReply[g.Hex], oldChal[g.Hex] = g.Sign(r, nil), ch
	}
	switch kind {
	case "genuine":
		return g.Sign(r, nil), nil
	case "refused":
		return nil, errors.New("connection refused")
	case "another key":
		return w.None.Sign(r, nil), nil
	case "another gateway's key":
		return o.Sign(r, nil), nil
	case "unsigned":
		return r, nil
	case "damaged signature":
		g.Sign(r, nil)
		b, err := r.FCRMsgToBytes()
		vnode.Must(err)
		sig := r.GetSignature()
		d := []byte(sig)
		if i := len(d) / 2; d[i] == '0' {
			d[i] = '1'
		} else {
			d[i] = '0'
		}
		return fcrmessages.FCRMsgFromBytes([]byte(strings.Replace(string(b), sig, string(d), 1)))
	case "another type":
		return g.Sign(fcrmessages.CreateFCRMessage(fcrmessages.ClientDHTOfferAckResponseType, r.GetMessageBody()), nil), nil
	case "another gateway's ID":
		return g.Sign(enc(o.ID, ch), nil), nil
	case "another gateway's reply":
		return o.Sign(enc(o.ID, ch), nil), nil
	case "an earlier challenge":
		return g.Sign(enc(g.ID, old), nil), nil
	case "the earlier reply":
		return oldReq, nil
	case "no challenge":
		return g.Sign(enc(g.ID, ""), nil), nil
	case "half the challenge":
		return g.Sign(enc(g.ID, ch[:22]), nil), nil
	case "the challenge decoded":
		b, _ := base64.StdEncoding.DecodeString(ch)
		return g.Sign(enc(g.ID, fmt.Sprintf("%x", b)), nil), nil
	case "an empty body":
		return g.Sign(fcrmessages.CreateFCRMessage(r.GetMessageType(), []byte("{}")), nil), nil
	case "no JSON":
		return g.Sign(fcrmessages.CreateFCRMessage(r.GetMessageType(), []byte("?")), nil), nil
	case "the request itself":
		return m, nil
	}
	panic("harness: " + kind)
}

// An op is a call with its arguments; gateways are numbered, -1 is nil.
type op struct {
	Call    string
	Args    []int
	Answers []string // by gateway, for activations
	Max     int
}

func (o op) String() string { return fmt.Sprint(o.Call, " ", o.Args, " ", o.Answers) }

func ids(args []int) []*nodeid.NodeID {
	out := []*nodeid.NodeID{}
	for _, a := range args {
		if a < 0 {
			out = append(out, nil)
		} else {
			out = append(out, all[a].ID)
		}
	}
	return out
}

// model of a client.
type model struct{ use, act [6]bool }

func (m *model) step(o op) int {
	n := 0
	for _, a := range o.Args {
		if a < 0 {
			continue
		}
		switch o.Call {
		case "AddGatewaysToUse":
			if !m.use[a] && a < 3 {
				m.use[a] = true
				n++
			}
		case "RemoveGatewaysToUse":
			if m.use[a] {
				m.use[a], m.act[a] = false, false
				n++
			}
		case "AddActiveGateways":
			if m.use[a] && !m.act[a] && o.Answers[a] == "genuine" {
				m.act[a] = true
				n++
			}
		case "RemoveActiveGateways":
			if m.act[a] {
				m.act[a] = false
				n++
			}
		}
	}
	switch o.Call {
	case "RemoveAllGatewaysToUse":
		for i := range m.use {
			if m.use[i] {
				n++
			}
			m.use[i], m.act[i] = false, false
		}
	case "RemoveAllActiveGateways":
		for i := range m.act {
			if m.act[i] {
				n++
			}
			m.act[i] = false
		}
	}
	return n
}

// call makes a call on the client.
func call(c *fcrclient.FilecoinRetrievalClient, o op) int {
	switch o.Call {
	case "AddGatewaysToUse":
		return c.AddGatewaysToUse(ids(o.Args))
	case "RemoveGatewaysToUse":
		return c.RemoveGatewaysToUse(ids(o.Args))
	case "AddActiveGateways":
		return c.AddActiveGateways(ids(o.Args))
	case "RemoveActiveGateways":
		return c.RemoveActiveGateways(ids(o.Args))
	case "RemoveAllGatewaysToUse":
		return c.RemoveAllGatewaysToUse()
	case "RemoveAllActiveGateways":
		return c.RemoveAllActiveGateways()
	}
	panic("harness: " + o.Call)
}

func set(l []*nodeid.NodeID) string {
	out := []string{}
	for _, i := range l {
		n := i.ToString()
		for k, g := range all {
			if g.Hex == n {
				n = fmt.Sprint(k)
			}
		}
		out = append(out, n)
	}
	sort.Strings(out)
	return strings.Join(out, " ")
}

func (m *model) show(b [6]bool) string {
	out := []string{}
	for i, x := range b {
		if x {
			out = append(out, fmt.Sprint(i))
		}
	}
	return strings.Join(out, " ")
}

// apply makes a call and compares everything with the model.
func apply(c *fcrclient.FilecoinRetrievalClient, m *model, o op, trace interface{}) bool {
	sent := map[int]int{}
	before := *m
	for i, g := range all {
		i, g := i, g
		w.On[vclient.Addr(g)] = func(q *msg) (*msg, error) {
			sent[i]++
			id, ch, ttl, err := fcrmessages.DecodeClientEstablishmentRequest(q)
			if err != nil {
				t.Violate("request", fmt.Sprintf("%v: gateway %d is sent something else than an establishment request: %v", o, i, err), trace)
				return nil, errors.New("refused")
			}
			if id.ToString() != c.Settings.ClientID().ToString() {
				t.Violate("request", fmt.Sprintf("%v: the client introduces itself as %s, it is %s", o, id.ToString(), c.Settings.ClientID().ToString()), trace)
			}
			if now := time.Now().Unix(); ttl < now || ttl > now+c.Settings.EstablishmentTTL()+2 {
				t.Violate("request", fmt.Sprintf("%v: the request is valid until %d, now is %d", o, ttl, now), trace)
			}
			if b, err := base64.StdEncoding.DecodeString(ch); err != nil || len(b) != 32 {
				t.Violate("challenge", fmt.Sprintf("%v: the challenge %q is not 32 bytes", o, ch), trace)
			}
			if challenges[ch]++; challenges[ch] > 1 {
				t.Violate("challenge used before", fmt.Sprintf("%v: the challenge %q was used before", o, ch), trace)
			}
			if o.Call != "AddActiveGateways" {
				return nil, errors.New("refused")
			}
			return reply(o.Answers[i], g, q)
		}
	}
	w.Asked = nil
	want := m.step(o)
	var got int
	ok := t.Try("panic", trace, func() { got = call(c, o) })
	if !ok {
		return false
	}
	t.Transition()
	t.Eval()
	if got != want {
		t.Violate("count:"+o.Call, fmt.Sprintf("%v reports %d, %d changed (in use %q, active %q before)", o, got, want, m.show(before.use), m.show(before.act)), trace)
		return false
	}
	if u, a := set(c.GetGatewaysToUse()), set(c.GetActiveGateways()); u != m.show(m.use) || a != m.show(m.act) {
		t.Violate("sets:"+o.Call, fmt.Sprintf("%v (in use %q, active %q before) leaves in use %q, active %q; expected %q, %q", o, m.show(before.use), m.show(before.act), u, a, m.show(m.use), m.show(m.act)), trace)
		return false
	}
	for i := range all {
		n := 0
		if o.Call == "AddActiveGateways" {
			for _, a := range o.Args {
				if a == i && before.use[i] && !before.act[i] {
					n++
				}
			}
			if n > 1 && o.Answers[i] == "genuine" {
				n = 1
			}
		}
		if sent[i] > n || n > 0 && sent[i] == 0 {
			t.Violate("sent:"+o.Call, fmt.Sprintf("%v (in use %q, active %q before) sends gateway %d %d messages", o, m.show(before.use), m.show(before.act), i, sent[i]), trace)
			return false
		}
	}
	return true
}

// silent checks that discovery through gateways that are not active is refused without a word.
func silent(c *fcrclient.FilecoinRetrievalClient, m *model, trace interface{}) {
	cid := vnode.CID("71", 1)
	for i, g := range all {
		if m.act[i] {
			continue
		}
		w.Asked = nil
		for n, f := range map[string]func() (int, error){
			"FindOffersStandardDiscovery": func() (int, error) { r, e := c.FindOffersStandardDiscovery(cid, g.ID); return len(r), e },
			"FindOffersStandardDiscoveryV2": func() (int, error) {
				r, e := c.FindOffersStandardDiscoveryV2(cid, g.ID, 3)
				return len(r), e
			},
			"FindOffersDHTDiscovery":   func() (int, error) { r, e := c.FindOffersDHTDiscovery(cid, g.ID, 1); return len(r), e },
			"FindOffersDHTDiscoveryV2": func() (int, error) { r, e := c.FindOffersDHTDiscoveryV2(cid, g.ID, 1, 3); return len(r), e },
		} {
			t.Try("panic", trace, func() {
				if k, err := f(); err == nil || k > 0 || len(w.Asked) > 0 || len(w.Chain.Channels) > 0 {
					t.Violate("inactive:"+n, fmt.Sprintf("%s through gateway %d, which is not active: %d results, error %v, %d messages sent", n, i, k, err, len(w.Asked)), trace)
				}
				t.Eval()
			})
		}
	}
}

func genuine() []string {
	return []string{"genuine", "genuine", "genuine", "genuine", "genuine", "genuine"}
}

// reach brings a fresh client into a state.
func reach(m model) *fcrclient.FilecoinRetrievalClient {
	c := w.Client(1 << 40)
	x := &model{}
	for i := 0; i < 3; i++ {
		if m.use[i] {
			apply(c, x, op{Call: "AddGatewaysToUse", Args: []int{i}}, "reaching a state")
		}
		if m.act[i] {
			apply(c, x, op{Call: "AddActiveGateways", Args: []int{i}, Answers: genuine()}, "reaching a state")
		}
	}
	return c
}

func argLists() [][]int {
	out := [][]int{{}, {-1}, {0, 1, 2}, {0, 1, 2, 0}, {5, 0, 3, 1, 4, 2}, {-1, 0, -1, 1}, {2, 2, 2}}
	for i := 0; i < 6; i++ {
		out = append(out, []int{i}, []int{i, i}, []int{-1, i}, []int{i, -1})
		for j := 0; j < 6; j++ {
			if j != i {
				out = append(out, []int{i, j}, []int{i, j, i})
			}
		}
	}
	return out
}

type step struct {
	Use, Act string
	Op       op
}

// states explores every state with every call.
func states() {
	seq := 0
	for s := 0; s < 27; s++ {
		var m model
		for i, x := 0, s; i < 3; i, x = i+1, x/3 {
			m.use[i], m.act[i] = x%3 > 0, x%3 == 2
		}
		t.State(fmt.Sprint(m))
		ops := []op{{Call: "RemoveAllGatewaysToUse"}, {Call: "RemoveAllActiveGateways"}}
		for _, l := range argLists() {
			for _, c := range []string{"AddGatewaysToUse", "RemoveGatewaysToUse", "RemoveActiveGateways"} {
				ops = append(ops, op{Call: c, Args: l})
			}
			ops = append(ops, op{Call: "AddActiveGateways", Args: l, Answers: genuine()})
		}
		for g := 0; g < 3; g++ {
			for _, a := range answers {
				an := genuine()
				an[g] = a
				for _, l := range [][]int{{g}, {g, g}, {g, (g + 1) % 3}, {(g + 1) % 3, g}, {0, 1, 2}} {
					ops = append(ops, op{Call: "AddActiveGateways", Args: l, Answers: an})
				}
				for _, b := range answers {
					an := genuine()
					an[g], an[(g+1)%3] = a, b
					ops = append(ops, op{Call: "AddActiveGateways", Args: []int{g, (g + 1) % 3}, Answers: an})
					if t.Thorough() {
						ops = append(ops, op{Call: "AddActiveGateways", Args: []int{(g + 1) % 3, g, 5, g}, Answers: an})
					}
				}
			}
		}
		for _, o := range ops {
			if seq++; !t.Mine(seq) {
				continue
			}
			if t.Over() {
				t.NotExhaustive("time")
				return
			}
			tr := step{m.show(m.use), m.show(m.act), o}
			t.Case(func() string { return fmt.Sprint(tr) })
			c := reach(m)
			x := m
			if apply(c, &x, o, tr) {
				silent(c, &x, tr)
			}
			t.Trace()
		}
	}
}

// sequences explores every sequence of calls of some length over few gateways.
func sequences(depth int) {
	var alpha []op
	for g := 0; g < 2; g++ {
		for _, c := range []string{"AddGatewaysToUse", "RemoveGatewaysToUse", "RemoveActiveGateways"} {
			alpha = append(alpha, op{Call: c, Args: []int{g}})
		}
		for _, a := range []string{"genuine", "the earlier reply", "an earlier challenge"} {
			an := genuine()
			an[g] = a
			alpha = append(alpha, op{Call: "AddActiveGateways", Args: []int{g}, Answers: an})
		}
	}
	alpha = append(alpha, op{Call: "RemoveAllGatewaysToUse"}, op{Call: "RemoveAllActiveGateways"}, op{Call: "AddGatewaysToUse", Args: []int{0, 1}}, op{Call: "AddActiveGateways", Args: []int{0, 1}, Answers: genuine()})
	total := 1
	for i := 0; i < depth; i++ {
		total *= len(alpha)
	}
	for n := t.Shard; n < total; n += t.Shards {
		if t.Over() {
			t.NotExhaustive("time")
			return
		}
		var ops []op
		for i, x := 0, n; i < depth; i, x = i+1, x/len(alpha) {
			ops = append(ops, alpha[x%len(alpha)])
		}
		t.Case(func() string { return fmt.Sprint(ops) })
		c := w.Client(1 << 40)
		oldReply, oldChal = map[string]*msg{}, map[string]string{}
		m := &model{}
		for i, o := range ops {
			if !apply(c, m, o, ops[:i+1]) {
				break
			}
		}
		t.State(fmt.Sprint(*m))
		t.Trace()
	}
	t.Note("sequences", fmt.Sprintf("all %d sequences of %d calls of %d", total, depth, len(alpha)))
}

// find checks what FindGateways returns.
func find() {
	c := w.Client(1)
	byRegion := map[string]map[string]bool{}
	n := 0
	for _, g := range w.Gateways {
		if byRegion[g.RegionCode] == nil {
			byRegion[g.RegionCode] = map[string]bool{}
		}
		byRegion[g.RegionCode][g.NodeID] = true
		n++
	}
	for _, r := range []string{"AU", "", "au", "nowhere"} {
		for max := -2; max <= n+1; max++ {
			for k := 0; k < 4; k++ { // the order is not fixed
				tr := fmt.Sprintf("FindGateways(%q, %d)", r, max)
				t.Try("panic", tr, func() {
					l, err := c.FindGateways(r, max)
					t.Eval()
					want := len(byRegion[r])
					if want > max {
						want = max
					}
					if want < 0 {
						want = 0
					}
					seen := map[string]bool{}
					for _, id := range l {
						h := id.ToString()
						if !byRegion[r][h] || seen[h] {
							t.Violate("find", tr+" returns "+h+" twice or although it is not registered there", tr)
						}
						seen[h] = true
					}
					if err != nil || len(l) != want {
						t.Violate("find", fmt.Sprintf("%s returns %d gateways, %d expected (error %v)", tr, len(l), want, err), tr)
					}
				})
			}
		}
	}
}

// first prints the first challenges of a process.
func first() {
	c := w.Client(1)
	for _, g := range w.G {
		w.On[vclient.Addr(g)] = func(m *msg) (*msg, error) {
			_, ch, _, _ := fcrmessages.DecodeClientEstablishmentRequest(m)
			fmt.Println("CHALLENGE", ch)
			return nil, errors.New("refused")
		}
	}
	c.AddGatewaysToUse(ids([]int{0, 1, 2}))
	c.AddActiveGateways(ids([]int{0, 1, 2}))
	os.Exit(0)
}

// restarts compares the challenges of several runs of the program.
func restarts() {
	if t.Shard != 0 {
		return
	}
	seen := map[string]int{}
	for run := 0; run < 5; run++ {
		cmd := exec.Command(os.Args[0])
		cmd.Env = append(os.Environ(), "VERIF_C24_FIRST=1")
		out, err := cmd.Output()
		vnode.Must(err)
		n := 0
		for _, l := range strings.Split(string(out), "\n") {
			if strings.HasPrefix(l, "CHALLENGE ") {
				n++
				if r, ok := seen[l]; ok {
					t.Violate("challenge after restart", fmt.Sprintf("a challenge of run %d of the program was already used in run %d", run, r), l)
				}
				seen[l] = run
			}
		}
		if n != 3 {
			panic(fmt.Sprint("harness: ", n, " challenges: ", string(out)))
		}
		t.Eval()
	}
}

// A scenario is calls made at the same time on a client in a state.
type scenario struct {
	Name    string
	State   [2]int // 0 not in use, 1 in use, 2 active
	Threads [][]op
	Bound   int
}

type made struct {
	op op
	lin.Call
	n int
}

func concurrent(sc scenario) {
	bound := sc.Bound
	cfg := vsched.Config{Name: sc.Name, MaxPreempt: bound, MaxSteps: 3000, Shard: t.Shard, Shards: t.Shards}
	t.Explore(cfg, func(x *vsched.X) {
		w.Chain = &vlotus.Chain{}
		vlotus.Current = w.Chain
		c, err := fcrclient.NewFilecoinRetrievalClient(settings, w.Mgr)
		vnode.Must(err)
		var m0 model
		for i := 0; i < 2; i++ {
			if sc.State[i] > 0 {
				c.AddGatewaysToUse(ids([]int{i}))
				m0.use[i] = true
			}
			if sc.State[i] > 1 {
				c.AddActiveGateways(ids([]int{i}))
				m0.act[i] = true
			}
		}
		var done []made
		res := make([][]made, len(sc.Threads))
		for i := range res {
			res[i] = make([]made, 0, len(sc.Threads[i]))
		}
		for i, th := range sc.Threads {
			i, th := i, th
			x.Go(fmt.Sprint("t", i), func() {
				for _, o := range th {
					d := made{op: o}
					d.Start = vsched.Steps()
					switch o.Call {
					case "look":
						c.GatewaysToUseLock.RLock()
						c.ActiveGatewaysLock.RLock()
						for id := range c.ActiveGateways {
							if c.GatewaysToUse[id] == nil {
								x.Fail("active but not in use", "gateway %s is active and not in use", id)
							}
						}
						c.ActiveGatewaysLock.RUnlock()
						c.GatewaysToUseLock.RUnlock()
					case "GetActiveGateways":
						d.Result = set(c.GetActiveGateways())
					case "GetGatewaysToUse":
						d.Result = set(c.GetGatewaysToUse())
					case "FindOffersStandardDiscovery":
						c.FindOffersStandardDiscovery(vnode.CID("71", 1), all[o.Args[0]].ID)
					case "FindOffersStandardDiscoveryV2":
						c.FindOffersStandardDiscoveryV2(vnode.CID("71", 1), all[o.Args[0]].ID, 2)
					case "FindOffersDHTDiscoveryV2":
						c.FindOffersDHTDiscoveryV2(vnode.CID("71", 1), all[o.Args[0]].ID, 1, 2)
					default:
						d.n = call(c, o)
						d.Result = fmt.Sprint(d.n)
					}
					d.End = vsched.Steps()
					res[i] = append(res[i], d)
				}
			})
		}
		x.Join()
		for _, r := range res {
			done = append(done, r...)
		}
		u, a := set(c.GetGatewaysToUse()), set(c.GetActiveGateways())
		for _, id := range strings.Fields(a) {
			if !strings.Contains(" "+u+" ", " "+id+" ") {
				x.Fail("active but not in use", "gateway %s is active and not in use in the end", id)
				return
			}
		}
		out := []string{}
		calls := []lin.Call{}
		ops := []op{}
		for _, d := range done {
			switch d.op.Call {
			case "look", "FindOffersStandardDiscovery", "FindOffersStandardDiscoveryV2", "FindOffersDHTDiscoveryV2":
				continue
			}
			calls, ops = append(calls, d.Call), append(ops, d.op)
			out = append(out, d.op.String()+"="+d.Result)
		}
		var m model
		if !lin.Check(calls, func() { m = m0 }, func(i int) string {
			switch ops[i].Call {
			case "GetActiveGateways":
				return m.show(m.act)
			case "GetGatewaysToUse":
				return m.show(m.use)
			}
			return fmt.Sprint(m.step(ops[i]))
		}, func() bool { return m.show(m.use) == u && m.show(m.act) == a }) {
			x.Fail("not as in any order", "from %v: %v, in use %q and active %q in the end: no order of the calls explains this", sc.State, out, u, a)
			return
		}
		x.Outcome(strings.Join(out, "; ") + " -> " + u + " / " + a)
	})
}

var settings fcrclient.ClientSettings

func main() {
	if os.Getenv("VERIF_C24_FIRST") != "" {
		w = vclient.New(nil)
		w.StartMgr()
		all = []*vnode.Ident{w.G[0], w.G[1], w.G[2], w.Part, w.Odd, w.None}
		first()
	}
	vh.Main(func(tt *vh.T) {
		t = tt
		w = vclient.New(t)
		w.StartMgr()
		all = []*vnode.Ident{w.G[0], w.G[1], w.G[2], w.Part, w.Odd, w.None}
		settings = vclient.Settings(1 << 40)
		t.Assume("signatures cannot be forged without the key")
		find()
		restarts()
		states()
		sequences(t.Pick(3, 4))
		schedules()
	})
}

func schedules() {
	one := func(c string, a ...int) op { return op{Call: c, Args: a, Answers: genuine()} }
	calls := func(g int) []op {
		return []op{one("AddGatewaysToUse", g), one("RemoveGatewaysToUse", g), one("AddActiveGateways", g), one("RemoveActiveGateways", g), one("RemoveAllGatewaysToUse"), one("RemoveAllActiveGateways"), one("GetActiveGateways"), one("GetGatewaysToUse")}
	}
	b := t.Pick(3, 4)
	// honest gateways; nothing is recorded
	vreq.Answer = func(url string, q *msg) (*msg, error) {
		q, err := vclient.Wire(q)
		vnode.Must(err)
		if q.GetMessageType() != fcrmessages.ClientEstablishmentRequestType {
			return nil, errors.New("refused")
		}
		_, ch, _, err := fcrmessages.DecodeClientEstablishmentRequest(q)
		vnode.Must(err)
		for i := 0; i < 2; i++ {
			if url == vclient.Addr(all[i]) {
				r, err := fcrmessages.EncodeClientEstablishmentResponse(all[i].ID, ch)
				return vclient.Wire(all[i].Sign(r, err))
			}
		}
		return nil, errors.New("refused")
	}
	for s := 0; s < 3; s++ {
		cs := calls(0)
		for i, o := range cs {
			for j, p := range cs {
				if j < i {
					continue
				}
				concurrent(scenario{fmt.Sprintf("state %d: %v / %v", s, o.Call, p.Call), [2]int{s, 2}, [][]op{{o}, {p}}, b})
				if i < 6 && j < 6 {
					concurrent(scenario{fmt.Sprintf("state %d: %v / %v / look", s, o.Call, p.Call), [2]int{s, 2}, [][]op{{o}, {p}, {one("look")}}, t.Pick(2, 3)})
				}
				// two calls after each other against one
				if t.Thorough() {
					for k, q := range cs[:6] {
						concurrent(scenario{fmt.Sprintf("state %d: %v / %v, %v (%d)", s, o.Call, p.Call, q.Call, k), [2]int{s, 2}, [][]op{{o}, {p, q}}, 3})
						concurrent(scenario{fmt.Sprintf("state %d: %v / %v / %v (%d)", s, o.Call, p.Call, q.Call, k), [2]int{s, 2}, [][]op{{o}, {p}, {q}}, 2})
					}
				}
			}
		}
	}
	for _, o := range calls(0) {
		for _, p := range []string{"AddGatewaysToUse", "AddActiveGateways", "RemoveGatewaysToUse"} {
			concurrent(scenario{fmt.Sprintf("another: %v / %v", o.Call, p), [2]int{1, 1}, [][]op{{o}, {one(p, 1)}}, b})
		}
		for _, p := range []string{"FindOffersStandardDiscovery", "FindOffersStandardDiscoveryV2", "FindOffersDHTDiscoveryV2"} {
			concurrent(scenario{fmt.Sprintf("discovery: %v / %v", o.Call, p), [2]int{2, 2}, [][]op{{o}, {one(p, 1)}}, t.Pick(2, 3)})
		}
	}
	ds := []string{"FindOffersStandardDiscovery", "FindOffersStandardDiscoveryV2", "FindOffersDHTDiscoveryV2"}
	for i, p := range ds {
		for _, q := range ds[i:] {
			concurrent(scenario{fmt.Sprintf("discoveries: %v / %v", p, q), [2]int{2, 2}, [][]op{{one(p, 0)}, {one(q, 1)}}, t.Pick(2, 3)})
		}
	}
}
