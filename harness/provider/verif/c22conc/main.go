//go:build go1.21

// C22, concurrently: publications, lists asked for and acknowledged, notices,
// and questions by clients and the administrator, at once; every schedule (to
// a bound) of the real P2P server, requesters and handlers.
package main

import (
	"encoding/binary"
	"encoding/json"
	"errors"
	"fmt"
	"net"
	"net/http"
	"sort"
	"strings"
	"time"

	"github.com/ConsenSys/fc-retrieval/common/pkg/cid"
	"github.com/ConsenSys/fc-retrieval/common/pkg/cidoffer"
	"github.com/ConsenSys/fc-retrieval/common/pkg/fcrcrypto"
	"github.com/ConsenSys/fc-retrieval/common/pkg/fcrmerkletree"
	"github.com/ConsenSys/fc-retrieval/common/pkg/fcrmessages"
	"github.com/ConsenSys/fc-retrieval/common/pkg/fcroffermgr"
	"github.com/ConsenSys/fc-retrieval/common/pkg/fcrp2pserver"
	"github.com/ConsenSys/fc-retrieval/common/pkg/fcrregistermgr"
	"github.com/ConsenSys/fc-retrieval/common/pkg/logging"
	"github.com/ConsenSys/fc-retrieval/common/pkg/nodeid"
	"github.com/ConsenSys/fc-retrieval/common/pkg/register"
	"github.com/ant0ine/go-json-rest/rest"
	"github.com/cbergoon/merkletree"

	"github.com/ConsenSys/fc-retrieval/provider/internal/api/adminapi"
	"github.com/ConsenSys/fc-retrieval/provider/internal/api/clientapi"
	"github.com/ConsenSys/fc-retrieval/provider/internal/api/gatewayapi"
	"github.com/ConsenSys/fc-retrieval/provider/internal/api/providerapi"
	"github.com/ConsenSys/fc-retrieval/provider/internal/core"
	"github.com/ConsenSys/fc-retrieval/provider/internal/util/settings"

	"github.com/ConsenSys/fc-retrieval/common/verif/vh"
	"github.com/ConsenSys/fc-retrieval/common/verif/vnet"
	"github.com/ConsenSys/fc-retrieval/common/verif/vnode"
	"github.com/ConsenSys/fc-retrieval/common/verif/vsched"
)

const timeout = time.Second

var (
	me     = vnode.NewIdent("provider", 9, "90")
	gws    = [2]*vnode.Ident{vnode.NewIdent("g0", 1, "10"), vnode.NewIdent("g1", 2, "20")}
	cids   = [2]*cid.ContentID{vnode.CID("11", 1), vnode.CID("21", 2)}
	offers [2]*cidoffer.CIDOffer // one CID each
	group  *cidoffer.CIDOffer
	proof  *fcrmerkletree.FCRMerkleProof
	mgr    *fcrregistermgr.FCRRegisterMgr
)

type leaf string

func (l leaf) CalculateHash() ([]byte, error)            { return []byte(l), nil }
func (l leaf) Equals(o merkletree.Content) (bool, error) { return o.(leaf) == l, nil }

func setup() {
	for i := range offers {
		offers[i] = me.Offer([]*cid.ContentID{cids[i]}, uint64(10+i), vnode.Forever, 5)
	}
	group = me.Offer([]*cid.ContentID{cids[0], cids[1]}, 30, vnode.Forever, 5)
	tree, err := fcrmerkletree.CreateMerkleTree([]merkletree.Content{leaf("a"), leaf("b")})
	vnode.Must(err)
	proof, err = tree.GenerateMerkleProof(leaf("a"))
	vnode.Must(err)
	for _, i := range []*vnode.Ident{me, gws[0], gws[1]} { // a key works out its public half when first asked
		i.Key.EncodePublicKey()
		i.Sign(fcrmessages.EncodeInvalidMessageResponse())
	}
	l, err := net.Listen("tcp", "127.0.0.1:0")
	vnode.Must(err)
	go http.Serve(l, http.HandlerFunc(func(w http.ResponseWriter, q *http.Request) {
		var g []register.GatewayRegister
		for i, gw := range gws {
			a := fmt.Sprintf("g%d", i)
			g = append(g, register.GatewayRegister{NodeID: gw.Hex, Address: "x", RootSigningKey: vnode.RootPub, SigningKey: gw.Pub, RegionCode: "r",
				NetworkInfoGateway: a, NetworkInfoProvider: a, NetworkInfoClient: a, NetworkInfoAdmin: a})
		}
		if strings.HasPrefix(q.URL.Path, "/registers/gateway") {
			json.NewEncoder(w).Encode(g)
		} else {
			json.NewEncoder(w).Encode([]register.ProviderRegister{})
		}
	}))
	mgr = fcrregistermgr.NewFCRRegisterMgr("http://"+l.Addr().String(), true, true, time.Hour)
	vnode.Must(mgr.Start())
	mgr.Refresh()
}

func name(o *cidoffer.CIDOffer) string { return fmt.Sprint(len(o.GetCIDs()), "@", o.GetPrice()) }

// ---------------------------------------------------------------- wire

func write(c *vnet.SConn, m *fcrmessages.FCRMessage) error {
	b := vnode.Bytes(m)
	f := make([]byte, 4, 4+len(b))
	binary.BigEndian.PutUint32(f, uint32(len(b)))
	_, err := c.Write(append(f, b...))
	return err
}

func read(c *vnet.SConn) (*fcrmessages.FCRMessage, error) {
	var buf []byte
	for {
		if len(buf) >= 4 {
			if n := int(binary.BigEndian.Uint32(buf)); len(buf) >= 4+n {
				return fcrmessages.FCRMsgFromBytes(buf[4 : 4+n])
			}
		}
		var b [8192]byte
		n, err := c.Read(b[:])
		if err != nil {
			return nil, err
		}
		buf = append(buf, b[:n]...)
	}
}

// page takes the answer of a REST handler.
type page struct {
	status int
	m      *fcrmessages.FCRMessage
}

func (p *page) Header() http.Header { return http.Header{} }
func (p *page) WriteHeader(s int)   { p.status = s }
func (p *page) EncodeJson(v interface{}) ([]byte, error) {
	return json.Marshal(v)
}
func (p *page) WriteJson(v interface{}) error {
	b, err := json.Marshal(v)
	if err != nil {
		return err
	}
	p.m, _ = fcrmessages.FCRMsgFromBytes(b)
	return nil
}

var _ rest.ResponseWriter = (*page)(nil)

// ---------------------------------------------------------------- scenario

// An operation: pd<i><g> publish offer i to gateway g; pg<g> publish the group
// offer to gateway g; l<g> gateway g asks for all single offers and
// acknowledges them; L<g> it acknowledges nothing; n<g>+ and n<g>- notices; a<i><g> a client asks
// for the acknowledgement of CID i by gateway g; o<g> the administrator asks
// what was published to gateway g; O what was published at all; AD<i> the
// administrator publishes an offer of price 100+i on CID i.
type event struct {
	op         string
	start, end int
	err        error
	found      bool
	list       []string
	what       string
}

type scenario struct {
	name    string
	stored  int    // single offers in the provider's store before
	plan    string // how g0 answers publications: g(ood), w(rong key), c(lose)
	threads []string
	bound   [2]int
}

type world struct {
	sc    scenario
	c     *core.Core
	lis   *vnet.SListener
	n     [2]int // connections made
	asked [2]int
	ev    [16]event
	nev   int
	pages int
}

func (w *world) dial(addr string) (net.Conn, error) {
	vsched.Point("dial " + addr)
	g := -1
	for i := range gws {
		if addr == fmt.Sprintf("g%d", i) {
			g = i
		}
	}
	if g < 0 {
		return nil, errors.New("connection refused")
	}
	a, b := vnet.SPipe(fmt.Sprintf("%s/%d", addr, w.n[g]))
	w.n[g]++
	vsched.Background("peer "+addr, func() { w.serve(g, b) })
	return a, nil
}

func (w *world) serve(g int, c *vnet.SConn) {
	for {
		m, err := read(c)
		if err != nil || m == nil {
			return
		}
		plan := byte('g')
		if g == 0 && w.asked[g] < len(w.sc.plan) {
			plan = w.sc.plan[w.asked[g]]
		}
		w.asked[g]++
		signer := gws[g]
		switch plan {
		case 'c':
			c.Close()
			return
		case 'w':
			signer = gws[1-g]
		}
		switch m.GetMessageType() {
		case fcrmessages.ProviderPublishDHTOfferRequestType:
			_, n, _, err := fcrmessages.DecodeProviderPublishDHTOfferRequest(m)
			if err != nil {
				c.Close()
				return
			}
			sig, err := fcrcrypto.SignMessage(signer.Key, vnode.Ver, m.GetMessageBody())
			vnode.Must(err)
			write(c, signer.Sign(fcrmessages.EncodeProviderPublishDHTOfferResponse(n, sig)))
		case fcrmessages.ProviderPublishGroupOfferRequestType:
			_, _, o, err := fcrmessages.DecodeProviderPublishGroupOfferRequest(m)
			if err != nil {
				c.Close()
				return
			}
			write(c, signer.Sign(fcrmessages.EncodeProviderPublishGroupOfferResponse(*gws[g].ID, cidoffer.EncodeMessageDigest(o.GetMessageDigest()))))
		default:
			c.Close()
			return
		}
	}
}

// list asks, as gateway g, for all offers, and acknowledges them or not.
func (w *world) list(c *vnet.SConn, g int, ack bool, e *event) error {
	m := gws[g].Sign(fcrmessages.EncodeGatewayListDHTOfferRequest(gws[g].ID, vnode.CID("00", 0), vnode.CID("ff", 0), "b", "t", "r", proof))
	if err := write(c, m); err != nil {
		return err
	}
	r, err := read(c)
	if err != nil {
		return err
	}
	if !me.Signed(r) {
		return errors.New("the answer is not signed by the provider")
	}
	subs, err := fcrmessages.DecodeGatewayListDHTOfferResponse(r)
	if err != nil {
		return err
	}
	acks := []fcrmessages.FCRMessage{}
	for i := range subs {
		_, n, l, err := fcrmessages.DecodeProviderPublishDHTOfferRequest(&subs[i])
		if err != nil {
			return err
		}
		for k := range l {
			e.list = append(e.list, name(&l[k]))
		}
		sig, err := fcrcrypto.SignMessage(gws[g].Key, vnode.Ver, subs[i].GetMessageBody())
		vnode.Must(err)
		acks = append(acks, *gws[g].Sign(fcrmessages.EncodeProviderPublishDHTOfferResponse(n, sig)))
	}
	if !ack {
		return c.Close()
	}
	return write(c, gws[g].Sign(fcrmessages.EncodeGatewayListDHTOfferAck(acks)))
}

// genuine says what is wrong with an acknowledgement given to a client.
func genuine(m *fcrmessages.FCRMessage, i, g int) string {
	c, id, found, msg, ack, err := fcrmessages.DecodeClientDHTOfferAckResponse(m)
	switch {
	case err != nil:
		return "unreadable"
	case c.ToString() != cids[i].ToString() || id.ToString() != gws[g].Hex:
		return "for another CID or gateway"
	case !found:
		return ""
	case !me.Signed(msg):
		return "the publication in it is not signed by the provider"
	case !gws[g].Signed(ack):
		return "the acknowledgement in it is not signed by the gateway"
	}
	_, n, l, err := fcrmessages.DecodeProviderPublishDHTOfferRequest(msg)
	if err != nil {
		return "the publication in it cannot be read"
	}
	k, sig, err := fcrmessages.DecodeProviderPublishDHTOfferResponse(ack)
	if err != nil || k != n {
		return "the acknowledgement in it cannot be read or is for another publication"
	}
	if ok, err := fcrcrypto.VerifyMessage(gws[g].PubKey, sig, msg.GetMessageBody()); err != nil || !ok {
		return "the acknowledgement in it is for another publication"
	}
	for k := range l {
		if l[k].GetCIDs()[0].ToString() == cids[i].ToString() {
			return ""
		}
	}
	return "the publication in it does not contain the CID"
}

func (w *world) ask(i, g int, e *event) {
	p := &page{}
	m, err := fcrmessages.EncodeClientDHTOfferAckRequest(cids[i], gws[g].ID)
	vnode.Must(err)
	clientapi.HandleClientDHTOfferAckRequest(p, m)
	if p.m == nil || !me.Signed(p.m) {
		e.what = fmt.Sprint("no signed answer: ", p.status)
		return
	}
	_, _, e.found, _, _, _ = fcrmessages.DecodeClientDHTOfferAckResponse(p.m)
	e.what = genuine(p.m, i, g)
}

func (w *world) published(ids []nodeid.NodeID, e *event) {
	p := &page{}
	m, err := fcrmessages.EncodeProviderAdminGetPublishedOfferRequest(ids)
	vnode.Must(err)
	adminapi.HandleProviderAdminGetPublishedOfferRequest(p, m)
	if p.m == nil || !me.Signed(p.m) {
		e.what = fmt.Sprint("no signed answer: ", p.status)
		return
	}
	_, l, err := fcrmessages.DecodeProviderAdminGetPublishedOfferResponse(p.m)
	if err != nil {
		e.what = "unreadable"
	}
	for k := range l {
		e.list = append(e.list, name(&l[k]))
	}
	sort.Strings(e.list)
}

func (w *world) do(e *event, conn *vnet.SConn) {
	op := e.op
	d := func(k int) int { return int(op[k] - '0') }
	e.start = vsched.Steps()
	switch {
	case strings.HasPrefix(op, "pd"):
		_, e.err = w.c.P2PServer.RequestGatewayFromProvider(gws[d(3)].ID, fcrmessages.ProviderPublishDHTOfferRequestType, []cidoffer.CIDOffer{*offers[d(2)]}, gws[d(3)].ID)
	case strings.HasPrefix(op, "pg"):
		_, e.err = w.c.P2PServer.RequestGatewayFromProvider(gws[d(2)].ID, fcrmessages.ProviderPublishGroupOfferRequestType, group, gws[d(2)].ID)
	case op[0] == 'l' || op[0] == 'L':
		e.err = w.list(conn, d(1), op[0] == 'l', e)
	case op[0] == 'n':
		g := d(1)
		if e.err = write(conn, gws[g].Sign(fcrmessages.EncodeGatewayNotifyProviderGroupCIDOfferSupportRequest(gws[g].ID, op[2] == '+'))); e.err != nil {
			return
		}
		r, err := read(conn)
		e.err = err
		if err == nil && !me.Signed(r) {
			e.err = errors.New("the answer is not signed by the provider")
		}
	case op[0] == 'a':
		w.ask(d(1), d(2), e)
	case op[0] == 'o':
		w.published([]nodeid.NodeID{*gws[d(1)].ID}, e)
	case op == "O":
		w.published(nil, e)
	case strings.HasPrefix(op, "AD"):
		p := &page{}
		m, err := fcrmessages.EncodeProviderAdminPublishDHTOfferRequest([]cid.ContentID{*cids[d(2)]}, []uint64{uint64(100 + d(2))}, []int64{vnode.Forever}, []uint64{5})
		vnode.Must(err)
		adminapi.HandleProviderAdminPublishDHTOfferRequest(p, m)
		if p.m == nil || !me.Signed(p.m) {
			e.err = fmt.Errorf("no signed answer: %d", p.status)
		}
	}
	e.end = vsched.Steps()
}

// adds tells what an operation that succeeds puts on the list of what gateway g got,
// and which CIDs it makes acknowledged.
func (w *world) adds(e *event, g int) (names []string, acked []int) {
	op := e.op
	switch {
	case strings.HasPrefix(op, "pd") && int(op[3]-'0') == g:
		i := int(op[2] - '0')
		return []string{name(offers[i])}, []int{i}
	case strings.HasPrefix(op, "pg") && int(op[2]-'0') == g:
		return []string{name(group)}, nil
	case strings.HasPrefix(op, "AD"):
		i := int(op[2] - '0')
		return []string{fmt.Sprint("1@", 100+i)}, []int{i}
	case op[0] == 'l' && int(op[1]-'0') == g:
		for i := range offers {
			for _, s := range e.list {
				if s == name(offers[i]) || s == fmt.Sprint("1@", 100+i) {
					acked = append(acked, i)
				}
			}
		}
		return nil, acked
	}
	return nil, nil
}

// async operations go on after their thread is done: the acknowledgement of a list is not answered.
func async(op string) bool { return op[0] == 'l' }

func (w *world) check(x *vsched.X) {
	failed := w.sc.plan != ""
	evs := w.ev[:w.nev]
	count := func(l []string) map[string]int {
		m := map[string]int{}
		for _, s := range l {
			m[s]++
		}
		return m
	}
	for k := range evs {
		e := &evs[k]
		if e.err != nil && !failed && e.op[0] != 'L' {
			x.Fail("c22conc:error", "%s failed though every gateway answers: %v", e.op, e.err)
			return
		}
		if e.what != "" {
			x.Fail("c22conc:answer", "%s: %s", e.op, e.what)
		}
		// what had to be, and what could be
		switch e.op[0] {
		case 'a':
			i, g := int(e.op[1]-'0'), int(e.op[2]-'0')
			must, may := false, false
			for j := range evs {
				p := &evs[j]
				_, acked := w.adds(p, g)
				for _, a := range acked {
					if a != i || p.start > e.end {
						continue
					}
					may = true
					if p.err == nil && !async(p.op) && p.end < e.start && !(failed && g == 0) {
						must = true
					}
				}
				if async(p.op) && p.op[1] == e.op[2] && p.start < e.end {
					may = true
				}
			}
			if e.found && !may || !e.found && must {
				x.Fail("c22conc:ack", "%s: acknowledgement found: %v, though that gateway had acknowledged before: %v, could have: %v", e.op, e.found, must, may)
			}
		case 'o', 'O':
			must, may := map[string]int{}, map[string]int{}
			for g := range gws {
				if e.op[0] == 'o' && g != int(e.op[1]-'0') {
					continue
				}
				for j := range evs {
					p := &evs[j]
					names, _ := w.adds(p, g)
					for _, s := range names {
						if p.start < e.end {
							may[s]++
						}
						if p.err == nil && p.end < e.start && !(failed && g == 0) {
							must[s]++
						}
					}
				}
			}
			got := count(e.list)
			for s, n := range got {
				if n > may[s] {
					x.Fail("c22conc:published", "%s lists %s %d times, published at most %d times", e.op, s, n, may[s])
				}
			}
			for s, n := range must {
				if got[s] < n {
					x.Fail("c22conc:published", "%s lists %s %d times, acknowledged %d times before", e.op, s, got[s], n)
				}
			}
		}
	}
}

// after everything: all of it must be there, and nothing else.
func (w *world) final(x *vsched.X) {
	failed := w.sc.plan != ""
	evs := w.ev[:w.nev]
	for g := range gws {
		acked := map[int]bool{}
		want := map[string]int{}
		n := 0
		for j := range evs {
			p := &evs[j]
			if p.err != nil {
				continue
			}
			names, a := w.adds(p, g)
			if p.op[0] == 'A' && failed && g == 0 {
				names, a = nil, nil // the gateway refused it
			}
			for _, s := range names {
				want[s]++
				n++
			}
			for _, i := range a {
				acked[i] = true
			}
		}
		e := event{}
		w.published([]nodeid.NodeID{*gws[g].ID}, &e)
		got := map[string]int{}
		for _, s := range e.list {
			got[s]++
		}
		if fmt.Sprint(got) != fmt.Sprint(want) || e.what != "" {
			x.Fail("c22conc:final-published", "published to gateway %d: acknowledged %v, listed %v %s", g, want, got, e.what)
		}
		for i := range cids {
			e := event{}
			w.ask(i, g, &e)
			if e.found != acked[i] || e.what != "" {
				x.Fail("c22conc:final-ack", "gateway %d, CID %d: acknowledged %v, found %v %s", g, i, acked[i], e.found, e.what)
			}
		}
	}
	// notices
	support := map[string]bool{}
	for j := range evs {
		if evs[j].op[0] == 'n' && evs[j].err == nil {
			g := gws[evs[j].op[1]-'0'].Hex
			if evs[j].op[2] == '+' {
				support[g] = true
			} else {
				delete(support, g)
			}
		}
	}
	got := map[string]bool{}
	w.c.GroupOfferGatewayIDsLock.Lock()
	for k := range w.c.GroupOfferGatewayIDs {
		h := w.c.GroupOfferGatewayIDs[k].ToString()
		if got[h] {
			x.Fail("c22conc:notices", "gateway %s is listed twice", h)
		}
		got[h] = true
	}
	w.c.GroupOfferGatewayIDsLock.Unlock()
	if fmt.Sprint(got) != fmt.Sprint(support) {
		x.Fail("c22conc:notices", "gateways that take group offers: said %v, listed %v", support, got)
	}
	// the store
	want := map[string]int{}
	for i := 0; i < w.sc.stored; i++ {
		want[name(offers[i])]++
	}
	for j := range evs {
		if evs[j].err == nil && evs[j].op[0] == 'A' {
			n, _ := w.adds(&evs[j], 1)
			want[n[0]] = 1 // the store keeps one of equal offers
		}
	}
	have := map[string]int{}
	dht, _ := w.c.OffersMgr.GetDHTOffersWithinRange(vnode.CID("00", 0), vnode.CID("ff", 0), 500)
	for k := range dht {
		have[name(&dht[k])]++
	}
	all, _ := w.c.OffersMgr.GetOffers(cids[0])
	for k := range all {
		if len(all[k].GetCIDs()) > 1 {
			have[name(&all[k])]++
		}
	}
	if fmt.Sprint(have) != fmt.Sprint(want) {
		x.Fail("c22conc:store", "offers published %v, stored %v", want, have)
	}
}

func run(t *vh.T, sc scenario) {
	cfg := vsched.Config{Name: sc.name, MaxPreempt: t.Pick(sc.bound[0], sc.bound[1]), MaxSteps: 3000, TimerFires: 60}
	cfg.Delay, cfg.Shard, cfg.Shards = true, t.Shard, t.Shards
	t.Explore(cfg, func(x *vsched.X) {
		w := &world{sc: sc}
		vnet.DialHook = w.dial
		vnet.ListenHook = func(addr string) (net.Listener, error) {
			w.lis = &vnet.SListener{Addr_: addr}
			return w.lis, nil
		}
		c := core.GetSingleInstance(&settings.AppSettings{})
		c.Settings = &settings.AppSettings{BindGatewayAPI: "7001", TCPInactivityTimeout: timeout, TCPLongInactivityTimeout: timeout}
		c.ProviderID, c.ProviderPrivateKey, c.ProviderPrivateKeyVersion = me.ID, me.Key, vnode.Ver
		c.RegisterMgr = mgr
		c.OffersMgr = fcroffermgr.NewFCROfferMgr()
		c.NodeOfferMap = map[string][]cidoffer.CIDOffer{}
		c.AcknowledgementMap = map[string]map[string]core.DHTAcknowledgement{}
		c.GroupOfferGatewayIDs = nil
		w.c = c
		for i := 0; i < sc.stored; i++ {
			vnode.Must(c.OffersMgr.AddDHTOffer(offers[i]))
		}
		s := fcrp2pserver.NewFCRP2PServer([]string{"7001"}, mgr, timeout)
		s.AddHandler("7001", fcrmessages.GatewayListDHTOfferRequestType, gatewayapi.HandleGatewayListDHTOfferRequest).
			AddHandler("7001", fcrmessages.GatewayNotifyProviderGroupCIDOfferSupportedRequestType, gatewayapi.HandleGatewayNotifyProviderGroupCIDOfferSupportRequest).
			AddRequester(fcrmessages.ProviderPublishGroupOfferRequestType, providerapi.RequestProviderPublishGroupOffer).
			AddRequester(fcrmessages.ProviderPublishDHTOfferRequestType, providerapi.RequestProviderPublishDHTOffer)
		c.P2PServer = s
		if err := s.Start(); err != nil {
			x.Fail("c22conc:start", "the server does not start: %v", err)
			return
		}
		for i, th := range sc.threads {
			ops := strings.Fields(th)
			base := w.nev
			w.nev += len(ops)
			for k, o := range ops {
				w.ev[base+k].op = o
			}
			x.Go(fmt.Sprintf("t%d", i), func() {
				var conn *vnet.SConn
				for k := range ops {
					e := &w.ev[base+k]
					if strings.ContainsRune("lLn", rune(e.op[0])) && (conn == nil || conn.Closed()) {
						a, b := vnet.SPipe(fmt.Sprintf("in%d.%d", base, k))
						if err := w.lis.Deliver(b); err != nil {
							e.err = err
							return
						}
						conn = a
					}
					w.do(e, conn)
				}
			})
		}
		x.Join()
		x.Quiesce()
		w.check(x)
		w.final(x)
		var out []string
		for _, e := range w.ev[:w.nev] {
			out = append(out, fmt.Sprint(e.op, e.err == nil, e.found, e.list))
		}
		x.Outcome(strings.Join(out, " "))
	})
}

func main() {
	vh.Main(func(t *vh.T) {
		logging.SetLogLevel("fatal")
		setup()
		for _, sc := range []scenario{
			{"conc-same-cid-two-gateways", 0, "", []string{"pd00", "pd01"}, [2]int{2, 4}},
			{"conc-same-gateway", 0, "", []string{"pd00", "pd10 a00"}, [2]int{2, 4}},
			{"conc-kinds", 0, "", []string{"pd00 pg0", "pg0 pd00"}, [2]int{2, 3}},
			{"conc-two-each", 0, "", []string{"pd00 pd10", "pd01 pg1"}, [2]int{2, 3}},
			{"conc-ask", 0, "", []string{"pd00 a00", "a00 a00", "a00 a01"}, [2]int{2, 4}},
			{"conc-ask-same-cid", 0, "", []string{"pd00", "pd01 a01", "a00 a01"}, [2]int{2, 3}},
			{"conc-admin-asks", 0, "", []string{"pd00 pd00", "o0 o0", "O O"}, [2]int{2, 4}},
			{"conc-admin-asks-two", 0, "", []string{"pd00 o0", "pg1 o1", "O o0"}, [2]int{2, 3}},
			{"conc-list-and-publish", 1, "", []string{"l0", "pd01 a00"}, [2]int{2, 4}},
			{"conc-list-same", 1, "", []string{"l0", "pd00 a00"}, [2]int{2, 4}},
			{"conc-two-lists", 2, "", []string{"l0", "l1", "a00 a11"}, [2]int{2, 3}},
			{"conc-list-unacknowledged", 2, "", []string{"L0", "l1 l1", "pd00"}, [2]int{2, 3}},
			{"conc-notices", 0, "", []string{"n0+ n0-", "n1+"}, [2]int{2, 4}},
			{"conc-notices-more", 0, "", []string{"n0+ n0- n0+", "n1+ n1-"}, [2]int{2, 4}},
			{"conc-admin-publishes", 0, "", []string{"AD0 a00 a01", "AD1 O"}, [2]int{1, 2}},
			{"conc-admin-publishes-list", 1, "", []string{"AD0", "pg1 o1", "l0"}, [2]int{1, 2}},
			{"conc-admin-publishes-same", 0, "", []string{"AD0", "AD0 o1"}, [2]int{1, 2}},
			{"conc-refused", 0, "w", []string{"pd00", "pd00 a00", "a00"}, [2]int{2, 3}},
			{"conc-hang-up", 0, "c", []string{"pd00", "pg0", "pd01 o0"}, [2]int{2, 3}},
		} {
			run(t, sc)
		}
		t.Assume("scheduling points are synchronisation operations of the P2P server and of the provider's handlers, goroutine starts and every dial, accept, read, write and close; schedules with more departures from the default schedule than stated are not explored")
	})
}
