//go:build go1.21

package nodechecks

import (
	"fmt"

	"github.com/ConsenSys/fc-retrieval/common/pkg/cid"
	m "github.com/ConsenSys/fc-retrieval/common/pkg/fcrmessages"
	"github.com/ConsenSys/fc-retrieval/common/pkg/nodeid"
	"github.com/ConsenSys/fc-retrieval/provider/internal/core"

	"github.com/ConsenSys/fc-retrieval/common/verif/vh"
	"github.com/ConsenSys/fc-retrieval/common/verif/vnode"
)

func init() { checks["c26"] = c26 }

// c26: what the running provider serves at its ports, and nothing else.
func c26(t *vh.T, main func()) {
	n := Start(t, main)
	g := vnode.NewPeer(vnode.NewIdent("gateway", 3, "82"))
	n.Reg.Gateway(g.Ident, "127.0.0.1:1", g.Addr, "127.0.0.1:1")
	served, doors := n.serves(g)
	look := func() string {
		c := core.GetSingleInstance()
		return fmt.Sprint("key ", c.ProviderPrivateKey != nil, ", wallet ", c.PaymentMgr != nil, ", identity ", c.ProviderID != nil, ", supporting ", len(c.GroupOfferGatewayIDs) > 0)
	}
	was := look()
	changed := func() string {
		if l := look(); l != was {
			return was + " became " + l
		}
		return ""
	}
	vnode.Dispatch(t, "provider", doors, served, false, changed)
	n.Init()
	n.Refresh()
	for i := 0; i < 2; i++ {
		was = ""
		vnode.Dispatch(t, "provider", doors, served, true, func() string { return "" })
	}
	t.Assume("the provider's peers take what is published to them without answering")
}

// serves lists what a running provider serves at its ports.
func (n *Node) serves(g *vnode.Peer) (served []vnode.Served, doors []vnode.Door) {
	k := 0
	next := func() *cid.ContentID { k++; return vnode.CID("81", k) }
	type mm = *m.FCRMessage
	served = []vnode.Served{
		{Door: "client", Type: m.ClientDHTOfferAckRequestType, Reply: m.ClientDHTOfferAckResponseType, By: g.Ident, Make: func() mm {
			return g.Sign(m.EncodeClientDHTOfferAckRequest(next(), g.ID))
		}},
		{Door: "admin", Type: m.ProviderAdminInitialiseKeyRequestType, Reply: m.ProviderAdminInitialiseKeyResponseType, By: n.Me, Make: func() mm {
			return n.Me.Sign(m.EncodeProviderAdminInitialiseKeyRequest(n.Me.ID, n.Me.Key, vnode.Ver))
		}},
		{Door: "admin", Type: m.ProviderAdminInitialiseKeyRequestV2Type, Reply: m.ProviderAdminInitialiseKeyResponseType, By: n.Me, Make: func() mm {
			return n.Me.Sign(m.EncodeProviderAdminInitialiseKeyRequestV2(n.Me.ID, n.Me.Key, vnode.Ver, n.Me.Wallet.Hex, "http://lotus/rpc/v0", "token"))
		}},
		{Door: "admin", Type: m.ProviderAdminGetPublishedOfferRequestType, Reply: m.ProviderAdminGetPublishedOfferResponseType, By: n.Me, Make: func() mm {
			return n.Me.Sign(m.EncodeProviderAdminGetPublishedOfferRequest([]nodeid.NodeID{*g.ID}))
		}},
		{Door: "admin", Type: m.ProviderAdminPublishDHTOfferRequestType, Reply: m.ProviderAdminPublishDHTOfferResponseType, By: n.Me, Make: func() mm {
			return n.Me.Sign(m.EncodeProviderAdminPublishDHTOfferRequest([]cid.ContentID{*next()}, []uint64{1}, []int64{vnode.Forever}, []uint64{2}))
		}},
		{Door: "admin", Type: m.ProviderAdminPublishGroupOfferRequestType, Reply: m.ProviderAdminPublishGroupOfferResponseType, By: n.Me, Make: func() mm {
			return n.Me.Sign(m.EncodeProviderAdminPublishGroupOfferRequest([]cid.ContentID{*next(), *next()}, 1, vnode.Forever, 2))
		}},
		{Door: "admin", Type: m.ProviderAdminForceRefreshRequestType, Reply: m.ProviderAdminForceRefreshResponseType, By: n.Me, Make: func() mm {
			return n.Me.Sign(m.EncodeProviderAdminForceRefreshRequest(true))
		}},
		{Door: "gateway", Type: m.GatewayListDHTOfferRequestType, Reply: m.GatewayListDHTOfferResponseType, Last: true, By: g.Ident, Make: func() mm {
			return g.Sign(m.EncodeGatewayListDHTOfferRequest(g.ID, vnode.CID("00", 0), vnode.CID("ff", 0), "a", "b", "c", proof()))
		}},
		{Door: "gateway", Type: m.GatewayNotifyProviderGroupCIDOfferSupportedRequestType, Reply: m.GatewayNotifyProviderGroupCIDOfferSupportedResponseType, By: g.Ident, Make: func() mm {
			return g.Sign(m.EncodeGatewayNotifyProviderGroupCIDOfferSupportRequest(g.ID, true))
		}},
	}
	doors = []vnode.Door{{Name: "client", Port: n.Rest}, {Name: "admin", Port: n.Admin}, {Name: "gateway", Port: n.Gw, P2P: n.G}}
	return
}
