//go:build go1.21

package nodechecks

import (
	"fmt"
	"strings"

	"github.com/ConsenSys/fc-retrieval/common/pkg/cid"
	"github.com/ConsenSys/fc-retrieval/common/pkg/cidoffer"
	m "github.com/ConsenSys/fc-retrieval/common/pkg/fcrmessages"
	"github.com/ConsenSys/fc-retrieval/common/pkg/nodeid"
	"github.com/ConsenSys/fc-retrieval/gateway/internal/core"

	"github.com/ConsenSys/fc-retrieval/common/verif/vh"
	"github.com/ConsenSys/fc-retrieval/common/verif/vnode"
)

func init() { checks["c26"] = c26 }

// c26: what the running gateway serves at its ports, and nothing else.
func c26(t *vh.T, main func()) {
	n := Start(t, main, "REGISTER_REFRESH_DURATION=5h")
	asker := vnode.NewIdent("gateway", 3, "82")
	pv := vnode.NewIdent("provider", 4, "84")
	n.Reg.Gateway(asker, "127.0.0.1:1", "127.0.0.1:1", "127.0.0.1:1")
	n.Reg.Provider(pv, "127.0.0.1:1", "127.0.0.1:1")
	c, offer, served, doors, pays := n.serves(asker, pv)
	look := func() string {
		g := core.GetSingleInstance()
		l, _ := g.OffersMgr.GetOffers(c)
		return fmt.Sprint("key ", g.GatewayPrivateKey != nil, ", wallet ", g.PaymentMgr != nil, ", identity ", g.GatewayID != nil, ", offers ", len(l))
	}
	was := look()
	pays()
	changed := func() string {
		if l := look(); l != was {
			return was + " became " + l
		}
		return ""
	}
	vnode.Dispatch(t, "gateway", doors, served, false, changed)
	n.Init()
	n.Publish(pv, true, offer())
	for i := 0; i < 2; i++ {
		was = look()
		vnode.Dispatch(t, "gateway", doors, served, true, func() string {
			now := look()
			if i := strings.Index(now, ", offers"); now[:i] != was[:i] { // publishing is served in between
				return was + " became " + now
			}
			return ""
		})
	}
}

// serves lists what a running gateway serves at its ports; pays sets up the channels of those who pay.
func (n *Node) serves(asker, pv *vnode.Ident) (c *cid.ContentID, offer func() *cidoffer.CIDOffer, served []vnode.Served, doors []vnode.Door, pays func()) {
	c = vnode.CID("81", 1)
	offer = func() *cidoffer.CIDOffer { return pv.Offer([]*cid.ContentID{c}, 5, vnode.Forever, 1) }
	var cl, gp *vnode.Payer
	pay := func(p *vnode.Payer) (string, string) { return p.Ch.String(), p.Voucher(100) }
	served = []vnode.Served{
		{Door: "client", Type: m.ClientEstablishmentRequestType, Reply: m.ClientEstablishmentResponseType, By: asker, Make: func() mm {
			return asker.Sign(m.EncodeClientEstablishmentRequest(asker.ID, "hello", TTL()))
		}},
		{Door: "client", Type: m.ClientStandardDiscoverRequestType, Reply: m.ClientStandardDiscoverResponseType, By: asker, Make: func() mm {
			return asker.Sign(m.EncodeClientStandardDiscoverRequest(c, n.Nonce(), TTL(), "", ""))
		}},
		{Door: "client", Type: m.ClientStandardDiscoverRequestV2Type, Reply: m.ClientStandardDiscoverResponseV2Type, By: asker, Make: func() mm {
			ch, v := pay(cl)
			return asker.Sign(m.EncodeClientStandardDiscoverRequestV2(c, n.Nonce(), TTL(), ch, v))
		}},
		{Door: "client", Type: m.ClientStandardDiscoverOfferRequestType, Reply: m.ClientStandardDiscoverOfferResponseType, By: asker, Make: func() mm {
			ch, v := pay(cl)
			return asker.Sign(m.EncodeClientStandardDiscoverOfferRequest(c, n.Nonce(), TTL(), []string{Digest(offer())}, ch, v))
		}},
		{Door: "client", Type: m.ClientDHTDiscoverRequestType, Reply: m.ClientDHTDiscoverResponseType, By: asker, Make: func() mm {
			return asker.Sign(m.EncodeClientDHTDiscoverRequest(c, n.Nonce(), TTL(), 1, false, "", ""))
		}},
		{Door: "client", Type: m.ClientDHTDiscoverRequestV2Type, Reply: m.ClientDHTDiscoverResponseV2Type, By: asker, Make: func() mm {
			ch, v := pay(cl)
			return asker.Sign(m.EncodeClientDHTDiscoverRequestV2(c, n.Nonce(), TTL(), 1, false, ch, v))
		}},
		{Door: "client", Type: m.ClientDHTDiscoverOfferRequestType, Reply: m.ClientDHTDiscoverOfferResponseType, By: asker, Make: func() mm {
			ch, v := pay(cl)
			return asker.Sign(m.EncodeClientDHTDiscoverOfferRequest(c, n.Nonce(), [][]string{}, []nodeid.NodeID{}, ch, v))
		}},
		{Door: "admin", Type: m.GatewayAdminInitialiseKeyRequestType, Reply: m.GatewayAdminInitialiseKeyResponseType, By: n.Me, Make: func() mm {
			return n.Me.Sign(m.EncodeGatewayAdminInitialiseKeyRequest(n.Me.ID, n.Me.Key, vnode.Ver))
		}},
		{Door: "admin", Type: m.GatewayAdminInitialiseKeyRequestV2Type, Reply: m.GatewayAdminInitialiseKeyResponseType, By: n.Me, Make: func() mm {
			return n.Me.Sign(m.EncodeGatewayAdminInitialiseKeyRequestV2(n.Me.ID, n.Me.Key, vnode.Ver, n.Me.Wallet.Hex, "http://lotus/rpc/v0", "token"))
		}},
		{Door: "admin", Type: m.GatewayAdminGetReputationRequestType, Reply: m.GatewayAdminGetReputationResponseType, By: n.Me, Make: func() mm {
			return n.Me.Sign(m.EncodeGatewayAdminGetReputationRequest(asker.ID))
		}},
		{Door: "admin", Type: m.GatewayAdminSetReputationRequestType, Reply: m.GatewayAdminSetReputationResponseType, By: n.Me, Make: func() mm {
			return n.Me.Sign(m.EncodeGatewayAdminSetReputationRequest(asker.ID, 5))
		}},
		{Door: "admin", Type: m.GatewayAdminForceRefreshRequestType, Reply: m.GatewayAdminForceRefreshResponseType, By: n.Me, Make: func() mm {
			return n.Me.Sign(m.EncodeGatewayAdminForceRefreshRequest(true))
		}},
		{Door: "admin", Type: m.GatewayAdminListDHTOfferRequestType, Reply: m.GatewayAdminListDHTOfferResponseType, By: n.Me, Make: func() mm {
			return n.Me.Sign(m.EncodeGatewayAdminListDHTOfferRequest(false))
		}},
		{Door: "admin", Type: m.GatewayAdminUpdateGatewayGroupCIDOfferSupportRequestType, Reply: m.GatewayAdminUpdateGatewayGroupCIDOfferSupportResponseType, By: n.Me, Make: func() mm {
			return n.Me.Sign(m.EncodeUpdateGatewayGroupCIDOfferSupportRequest(n.Me.ID, []nodeid.NodeID{}))
		}},
		{Door: "gateway", Type: m.GatewayDHTDiscoverRequestType, Reply: m.GatewayDHTDiscoverResponseType, By: asker, Make: func() mm {
			return asker.Sign(m.EncodeGatewayDHTDiscoverRequest(asker.ID, c, n.Nonce(), TTL(), "", ""))
		}},
		{Door: "gateway", Type: m.GatewayDHTDiscoverRequestV2Type, Reply: m.GatewayDHTDiscoverResponseV2Type, By: asker, Make: func() mm {
			ch, v := pay(gp)
			return asker.Sign(m.EncodeGatewayDHTDiscoverRequestV2(asker.ID, c, n.Nonce(), TTL(), ch, v))
		}},
		{Door: "gateway", Type: m.GatewayDHTDiscoverOfferRequestType, Reply: m.GatewayDHTDiscoverOfferResponseType, By: asker, Make: func() mm {
			ch, v := pay(gp)
			return asker.Sign(m.EncodeGatewayDHTDiscoverOfferRequest(c, n.Nonce(), []string{Digest(offer())}, ch, v))
		}},
		{Door: "provider", Type: m.ProviderPublishGroupOfferRequestType, Reply: m.ProviderPublishGroupOfferResponseType, By: pv, Make: func() mm {
			o := pv.Offer([]*cid.ContentID{c, vnode.CID("83", 7)}, 5, vnode.Forever, uint64(n.Nonce()))
			return pv.Sign(m.EncodeProviderPublishGroupOfferRequest(pv.ID, n.Nonce(), o))
		}},
		{Door: "provider", Type: m.ProviderPublishDHTOfferRequestType, Reply: m.ProviderPublishDHTOfferResponseType, By: pv, Make: func() mm {
			o := pv.Offer([]*cid.ContentID{c}, 5, vnode.Forever, uint64(n.Nonce()))
			return pv.Sign(m.EncodeProviderPublishDHTOfferRequest(pv.ID, n.Nonce(), []cidoffer.CIDOffer{*o}))
		}},
	}
	doors = []vnode.Door{{Name: "client", Port: n.Rest}, {Name: "admin", Port: n.Admin}, {Name: "gateway", Port: n.Gw, P2P: n.G}, {Name: "provider", Port: n.Prov, P2P: n.P}}
	pays = func() {
		cl, gp = vnode.NewPayer(n.Chain, 30, n.Me.Wallet.Addr, 1<<60), vnode.NewPayer(n.Chain, 31, n.Me.Wallet.Addr, 1<<60)
	}
	return
}
