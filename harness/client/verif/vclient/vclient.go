//go:build go1.21

// Package vclient runs the client library against scripted gateways and providers.
package vclient

import (
	"encoding/json"
	"errors"
	"fmt"
	"math/big"
	"time"

	"github.com/ConsenSys/fc-retrieval/client/pkg/fcrclient"
	"github.com/ConsenSys/fc-retrieval/common/pkg/cid"
	"github.com/ConsenSys/fc-retrieval/common/pkg/cidoffer"
	"github.com/ConsenSys/fc-retrieval/common/pkg/fcrcrypto"
	"github.com/ConsenSys/fc-retrieval/common/pkg/fcrmessages"
	"github.com/ConsenSys/fc-retrieval/common/pkg/fcrregistermgr"
	"github.com/ConsenSys/fc-retrieval/common/pkg/nodeid"
	"github.com/ConsenSys/fc-retrieval/common/pkg/register"

	"github.com/ConsenSys/fc-retrieval/common/verif/vh"
	"github.com/ConsenSys/fc-retrieval/common/verif/vlotus"
	"github.com/ConsenSys/fc-retrieval/common/verif/vnode"
	"github.com/ConsenSys/fc-retrieval/common/verif/vreq"
)

// Prices of this world.
const (
	SearchPrice = 7
	OfferPrice  = 11
)

// World is who is there.
type World struct {
	T   *vh.T
	Mgr *fcrregistermgr.FCRRegisterMgr
	C   *fcrclient.FilecoinRetrievalClient
	Me  vlotus.Account

	G         [3]*vnode.Ident // registered gateways
	Part      *vnode.Ident    // a gateway whose registration is incomplete
	Odd       *vnode.Ident    // a gateway registered with a key that cannot be read
	None      *vnode.Ident    // a gateway that is not registered
	P         [2]*vnode.Ident // registered providers
	PartP     *vnode.Ident
	OddP      *vnode.Ident
	NoneP     *vnode.Ident
	Gateways  []register.GatewayRegister
	Providers []register.ProviderRegister

	// On answers what is sent to an address.
	On map[string]func(m *fcrmessages.FCRMessage) (*fcrmessages.FCRMessage, error)
	// Asked is everything sent, in order.
	Asked []*fcrmessages.FCRMessage
	Chain *vlotus.Chain
	Worth map[string]*vnode.Worth // by gateway
}

// Addr is where clients reach a party.
func Addr(i *vnode.Ident) string { return i.Hex + ":9010" }

// GatewayRecord is a complete registration.
func GatewayRecord(i *vnode.Ident) register.GatewayRegister {
	return register.GatewayRegister{NodeID: i.Hex, Address: i.Wallet.Addr.String(), RootSigningKey: vnode.RootPub, SigningKey: i.Pub, RegionCode: "AU",
		NetworkInfoGateway: "g", NetworkInfoProvider: "p", NetworkInfoClient: Addr(i), NetworkInfoAdmin: "a"}
}

// ProviderRecord is a complete registration.
func ProviderRecord(i *vnode.Ident) register.ProviderRegister {
	return register.ProviderRegister{NodeID: i.Hex, Address: i.Wallet.Addr.String(), RootSigningKey: vnode.RootPub, SigningKey: i.Pub, RegionCode: "AU",
		NetworkInfoGateway: "g", NetworkInfoClient: Addr(i), NetworkInfoAdmin: "a"}
}

// Settings of a client.
func Settings(topup int64) fcrclient.ClientSettings {
	s := fcrclient.CreateSettings()
	s.SetLogging("fatal", "STDOUT", "client")
	k, err := fcrcrypto.GenerateBlockchainKeyPair()
	vnode.Must(err)
	s.SetBlockchainPrivateKey(k)
	s.SetRegisterURL("http://register")
	s.SetWalletPrivateKey(vlotus.NewAccount(99).Hex)
	s.SetLotusAP("http://lotus/rpc/v0")
	s.SetLotusAuthToken("token")
	s.SetSearchPrice(big.NewInt(SearchPrice))
	s.SetOfferPrice(big.NewInt(OfferPrice))
	s.SetTopUpAmount(big.NewInt(topup))
	return *s.Build()
}

// Serve puts the records in the register.
func (w *World) Serve() {
	if vreq.Srv == nil {
		vreq.Srv = &vreq.Register{}
	}
	var err error
	vreq.Srv.Gateways, err = json.Marshal(w.Gateways)
	vnode.Must(err)
	vreq.Srv.Providers, err = json.Marshal(w.Providers)
	vnode.Must(err)
}

// New makes the world and a register manager that has read it.
func New(t *vh.T) *World {
	w := &World{T: t, Me: vlotus.NewAccount(99)}
	for i := range w.G {
		w.G[i] = vnode.NewIdent(fmt.Sprint("gateway ", i), 40+i, fmt.Sprintf("4%d", i))
		w.Gateways = append(w.Gateways, GatewayRecord(w.G[i]))
	}
	w.Part, w.Odd, w.None = vnode.NewIdent("incomplete gateway", 50, "50"), vnode.NewIdent("gateway with an odd key", 51, "51"), vnode.NewIdent("unregistered gateway", 52, "52")
	r := GatewayRecord(w.Part)
	r.RegionCode = ""
	w.Gateways = append(w.Gateways, r)
	r = GatewayRecord(w.Odd)
	r.SigningKey = "01zz"
	w.Gateways = append(w.Gateways, r)
	for i := range w.P {
		w.P[i] = vnode.NewIdent(fmt.Sprint("provider ", i), 60+i, fmt.Sprintf("b%d", i))
		w.Providers = append(w.Providers, ProviderRecord(w.P[i]))
	}
	w.PartP, w.OddP, w.NoneP = vnode.NewIdent("incomplete provider", 70, "c0"), vnode.NewIdent("provider with an odd key", 71, "c1"), vnode.NewIdent("unregistered provider", 72, "c2")
	p := ProviderRecord(w.PartP)
	p.NetworkInfoAdmin = ""
	w.Providers = append(w.Providers, p)
	p = ProviderRecord(w.OddP)
	p.SigningKey = "01zz"
	w.Providers = append(w.Providers, p)
	w.Serve()
	w.On = map[string]func(m *fcrmessages.FCRMessage) (*fcrmessages.FCRMessage, error){}
	vreq.Answer = w.answer
	return w
}

// StartMgr starts reading the register.
func (w *World) StartMgr() {
	w.Mgr = fcrregistermgr.NewFCRRegisterMgr("http://register", true, true, 100*time.Hour)
	vnode.Must(w.Mgr.Start())
	w.Mgr.Refresh()
}

// Client makes a fresh client on a fresh chain.
func (w *World) Client(topup int64) *fcrclient.FilecoinRetrievalClient {
	w.Chain = &vlotus.Chain{}
	vlotus.Current = w.Chain
	w.Worth = map[string]*vnode.Worth{}
	c, err := fcrclient.NewFilecoinRetrievalClient(Settings(topup), w.Mgr)
	vnode.Must(err)
	w.C = c
	w.Asked = nil
	return c
}

// Wire sends a message through its wire form.
func Wire(m *fcrmessages.FCRMessage) (*fcrmessages.FCRMessage, error) {
	b, err := m.FCRMsgToBytes()
	vnode.Must(err)
	return fcrmessages.FCRMsgFromBytes(b)
}

func (w *World) answer(url string, m *fcrmessages.FCRMessage) (*fcrmessages.FCRMessage, error) {
	m, err := Wire(m)
	vnode.Must(err)
	w.Asked = append(w.Asked, m)
	f := w.On[url]
	if f == nil {
		return nil, errors.New("connection refused")
	}
	r, err := f(m)
	if err != nil || r == nil {
		if err == nil {
			err = errors.New("connection closed")
		}
		return nil, err
	}
	return Wire(r)
}

// Use makes gateways active.
func (w *World) Use(gs ...*vnode.Ident) {
	ids := []*nodeid.NodeID{}
	old := map[string]func(m *fcrmessages.FCRMessage) (*fcrmessages.FCRMessage, error){}
	for _, g := range gs {
		g := g
		ids = append(ids, g.ID)
		old[Addr(g)] = w.On[Addr(g)]
		w.On[Addr(g)] = func(m *fcrmessages.FCRMessage) (*fcrmessages.FCRMessage, error) {
			_, ch, _, err := fcrmessages.DecodeClientEstablishmentRequest(m)
			if err != nil {
				return nil, err
			}
			r, err := fcrmessages.EncodeClientEstablishmentResponse(g.ID, ch)
			return g.Sign(r, err), nil
		}
	}
	if n := w.C.AddGatewaysToUse(ids); n != len(gs) {
		panic(fmt.Sprint("harness: gateways cannot be added: ", n))
	}
	if n := w.C.AddActiveGateways(ids); n != len(gs) {
		panic(fmt.Sprint("harness: gateways cannot be activated: ", n))
	}
	for a, f := range old {
		w.On[a] = f
	}
	w.Asked = nil
}

// Paid is what a voucher adds to those a gateway had before.
func (w *World) Paid(g *vnode.Ident, paych, voucher string) (*big.Int, error) {
	x := w.Worth[g.Hex]
	if x == nil {
		x = &vnode.Worth{From: w.Me.Addr}
		w.Worth[g.Hex] = x
	}
	return x.Value(w.Chain, g.Wallet.Addr, paych, voucher)
}

// SubKinds are the ways an offer can be; those that start with "good" are to be accepted.
var SubKinds = []string{"good group", "good single", "good other", "other CID of the group", "asked CID with another's proof", "other price", "other expiry", "other quality",
	"root of another offer", "proof of another offer", "signed by another provider", "in another provider's name", "unsigned", "odd signature",
	"unregistered provider", "provider with an incomplete registration", "provider with an odd key"}

// Good says whether a kind is to be accepted.
func Good(kind string) bool { return len(kind) > 4 && kind[:4] == "good" }

// Sub makes an offer of a kind for a CID; salt makes it different from others.
func (w *World) Sub(kind string, c *cid.ContentID, salt int) *cidoffer.SubCIDOffer {
	p, other := w.P[0], vnode.CID("7e", 5)
	price := uint64(100 + salt)
	group := func(p *vnode.Ident, by *vnode.Ident) *cidoffer.CIDOffer {
		o, err := cidoffer.NewCIDOffer(p.ID, []cid.ContentID{*other, *c, *vnode.CID("7e", 6)}, price, vnode.Forever, 5)
		vnode.Must(err)
		vnode.Must(o.Sign(by.Key, vnode.Ver))
		return o
	}
	sub := func(o *cidoffer.CIDOffer, c *cid.ContentID) *cidoffer.SubCIDOffer {
		s, err := o.GenerateSubCIDOffer(c)
		vnode.Must(err)
		return s
	}
	g := sub(group(p, p), c)
	x := sub(p.Offer([]*cid.ContentID{c, vnode.CID("7e", 8)}, price, vnode.Forever, 5), c)
	with := func(id *nodeid.NodeID, sc *cid.ContentID, from *cidoffer.SubCIDOffer, dp uint64, de int64, dq uint64, sig string) *cidoffer.SubCIDOffer {
		return cidoffer.NewSubCIDOffer(id, sc, g.GetMerkleRoot(), from.GetMerkleProof(), g.GetPrice()+dp, g.GetExpiry()+de, g.GetQoS()+dq, sig)
	}
	sig := g.GetSignature()
	switch kind {
	case "good group":
		return g
	case "good single":
		p = w.P[1]
		return sub(p.Offer([]*cid.ContentID{c}, price, vnode.Forever, 6), c)
	case "good other":
		return sub(p.Offer([]*cid.ContentID{c, vnode.CID("7e", 9)}, price+1000, vnode.Forever-1, 0), c)
	case "other CID of the group":
		return sub(group(p, p), other)
	case "asked CID with another's proof":
		return with(p.ID, c, sub(group(p, p), other), 0, 0, 0, sig)
	case "other price":
		return with(p.ID, c, g, 1, 0, 0, sig)
	case "other expiry":
		return with(p.ID, c, g, 0, 1, 0, sig)
	case "other quality":
		return with(p.ID, c, g, 0, 0, 1, sig)
	case "root of another offer":
		return cidoffer.NewSubCIDOffer(p.ID, c, x.GetMerkleRoot(), x.GetMerkleProof(), g.GetPrice(), g.GetExpiry(), g.GetQoS(), sig)
	case "proof of another offer":
		return with(p.ID, c, x, 0, 0, 0, sig)
	case "signed by another provider":
		return sub(group(p, w.P[1]), c)
	case "in another provider's name":
		return with(w.P[1].ID, c, g, 0, 0, 0, sig)
	case "unsigned":
		return with(p.ID, c, g, 0, 0, 0, "")
	case "odd signature":
		return with(p.ID, c, g, 0, 0, 0, "00000001zz")
	case "unregistered provider":
		return sub(group(w.NoneP, w.NoneP), c)
	case "provider with an incomplete registration":
		return sub(group(w.PartP, w.PartP), c)
	case "provider with an odd key":
		return sub(group(w.OddP, w.OddP), c)
	}
	panic("harness: kind " + kind)
}

// Show writes all of an offer out.
func Show(s *cidoffer.SubCIDOffer) string {
	b, err := json.Marshal(s)
	vnode.Must(err)
	return string(b)
}
