//go:build go1.21

package nodechecks

import (
	"github.com/ConsenSys/fc-retrieval/common/pkg/cid"
	"github.com/ConsenSys/fc-retrieval/common/pkg/cidoffer"
	m "github.com/ConsenSys/fc-retrieval/common/pkg/fcrmessages"
	"github.com/ConsenSys/fc-retrieval/common/pkg/nodeid"
	"github.com/ConsenSys/fc-retrieval/gateway/internal/core"

	"github.com/ConsenSys/fc-retrieval/common/verif/vh"
	"github.com/ConsenSys/fc-retrieval/common/verif/vnode"
)

func init() { checks["c21"] = c21 }

// c21: no alteration of any request stops the running gateway.
func c21(t *vh.T, main func()) {
	n := Start(t, main, "REGISTER_REFRESH_DURATION=5h")
	asker := vnode.NewIdent("gateway", 3, "82")
	pv := vnode.NewIdent("provider", 4, "84")
	n.Reg.Gateway(asker, "127.0.0.1:1", "127.0.0.1:1", "127.0.0.1:1")
	n.Reg.Provider(pv, "127.0.0.1:1", "127.0.0.1:1")
	_, offer, served, doors, pays := n.serves(asker, pv)
	pays()
	mine := []vnode.Served{}
	for i, s := range served {
		if t.Mine(i) {
			mine = append(mine, s)
		}
	}
	vnode.Malformed(t, "gateway without key", doors, mine, false, nil)
	if r := vnode.Send(n.Admin, n.Me.Sign(m.EncodeGatewayAdminInitialiseKeyRequest(n.Me.ID, n.Me.Key, vnode.Ver))); !n.Me.Signed(r.Msg()) {
		panic("no key installed: " + r.String())
	}
	vnode.Malformed(t, "gateway without wallet", doors, mine, false, nil)
	n.Init()
	n.Publish(pv, true, offer())
	vnode.Malformed(t, "gateway", doors, mine, true, func(s vnode.Served) {
		if len(n.Chain.Channels) > 200 {
			n.Chain.Channels = nil
			pays()
		}
		switch s.Type {
		case m.GatewayAdminInitialiseKeyRequestType, m.GatewayAdminInitialiseKeyRequestV2Type:
			n.Init()
		}
	})
	n.Chain.Channels = nil
	pays()
	peer := vnode.NewPeer(vnode.NewIdent("gateway", 5, "81"))
	seller := vnode.NewPeer(vnode.NewIdent("provider", 6, "86"))
	n.Reg.Gateway(peer.Ident, peer.Addr, "127.0.0.1:1", "127.0.0.1:1")
	n.Reg.Provider(seller.Ident, seller.Addr, "127.0.0.1:1")
	n.Refresh()
	c := vnode.CID("81", 5)
	off := peer.Offer([]*cid.ContentID{c}, 5, vnode.Forever, 1)
	sub, err := off.GenerateSubCIDOffer(c)
	vnode.Must(err)
	cl := vnode.NewPayer(n.Chain, 32, n.Me.Wallet.Addr, 1<<60)
	pay := func(v int64) (string, string) {
		if len(n.Chain.Channels) > 200 {
			n.Chain.Channels = nil
			cl = vnode.NewPayer(n.Chain, 32, n.Me.Wallet.Addr, 1<<60)
		}
		return cl.Ch.String(), cl.Voucher(v)
	}
	v1 := func() string {
		r := vnode.Send(n.Rest, asker.Sign(m.EncodeClientDHTDiscoverRequest(c, n.Nonce(), TTL(), 1, false, "", ""))).Msg()
		if r == nil {
			return ""
		}
		if ids, _, _, _, _, _, err := m.DecodeClientDHTDiscoverResponse(r); err != nil || len(ids) != 1 {
			return ""
		}
		return "contacted"
	}
	v2 := func() string {
		ch, v := pay(3 * SearchPrice)
		r := vnode.Send(n.Rest, asker.Sign(m.EncodeClientDHTDiscoverRequestV2(c, n.Nonce(), TTL(), 1, false, ch, v))).Msg()
		if r == nil {
			return ""
		}
		if ids, _, _, _, _, _, err := m.DecodeClientDHTDiscoverResponseV2(r); err != nil || len(ids) != 1 {
			return ""
		}
		return "contacted"
	}
	offers := func() string {
		ch, v := pay(3 * OfferPrice)
		r := vnode.Send(n.Rest, asker.Sign(m.EncodeClientDHTDiscoverOfferRequest(c, n.Nonce(), [][]string{{Digest(off)}}, []nodeid.NodeID{*peer.ID}, ch, v))).Msg()
		if r == nil {
			return ""
		}
		if _, _, ids, _, _, _, err := m.DecodeClientDHTDiscoverOfferResponse(r); err != nil || len(ids) != 1 {
			return ""
		}
		return "contacted"
	}
	if t.Mine(0) || t.Mine(1) || t.Mine(2) {
		qs := []vnode.Question{
			{Name: "DHT discovery", Ask: v1, Reply: func(q mm) mm {
				_, c, nonce, _, _, _, err := m.DecodeGatewayDHTDiscoverRequest(q)
				if err != nil {
					return nil
				}
				r, err := m.EncodeGatewayDHTDiscoverResponse(c, nonce, true, subs(sub), []bool{false})
				vnode.Must(err)
				return r
			}},
			{Name: "paid DHT discovery", Ask: v2, Reply: func(q mm) mm {
				_, c, nonce, _, _, _, err := m.DecodeGatewayDHTDiscoverRequestV2(q)
				if err != nil {
					return nil
				}
				r, err := m.EncodeGatewayDHTDiscoverResponseV2(c, nonce, true, []string{Digest(off)}, []bool{false}, false, "")
				vnode.Must(err)
				return r
			}},
			{Name: "offers of a gateway", Ask: offers, Reply: func(q mm) mm {
				c, nonce, _, _, _, err := m.DecodeGatewayDHTDiscoverOfferRequest(q)
				if err != nil {
					return nil
				}
				r, err := m.EncodeGatewayDHTDiscoverOfferResponse(c, nonce, true, subs(sub), []bool{false}, false, "")
				vnode.Must(err)
				return r
			}},
		}
		for i := range qs {
			if t.Mine(i) {
				vnode.Replies(t, "gateway", peer, qs[i:i+1])
			}
		}
	}
	core_ := core.GetSingleInstance()
	list := func() string {
		lo, hi, err := core_.RegisterMgr.GetGatewayCIDRange(n.Me.ID)
		if err != nil {
			return ""
		}
		if _, err := core_.P2PServer.RequestProvider(seller.ID, m.GatewayListDHTOfferRequestType, lo, hi, seller.ID); err != nil {
			return ""
		}
		return "listed"
	}
	listed := func(q mm) mm {
		if q.GetMessageType() != m.GatewayListDHTOfferRequestType {
			return nil
		}
		o := seller.Offer([]*cid.ContentID{c}, 5, vnode.Forever, 1)
		p := seller.Sign(m.EncodeProviderPublishDHTOfferRequest(seller.ID, 7, []cidoffer.CIDOffer{*o}))
		r, err := m.EncodeGatewayListDHTOfferResponse([]m.FCRMessage{*p})
		vnode.Must(err)
		return r
	}
	notice := func() string {
		if _, err := core_.P2PServer.RequestProvider(seller.ID, m.GatewayNotifyProviderGroupCIDOfferSupportedRequestType, true); err != nil {
			return ""
		}
		return "noticed"
	}
	if t.Mine(3) {
		vnode.Replies(t, "gateway", seller, []vnode.Question{
			{Name: "listing", Ask: list, Reply: listed},
			{Name: "notice", Ask: notice, Reply: func(q mm) mm {
				if q.GetMessageType() != m.GatewayNotifyProviderGroupCIDOfferSupportedRequestType {
					return nil
				}
				r, err := m.EncodeGatewayNotifyProviderGroupCIDOfferSupportResponse(true)
				vnode.Must(err)
				return r
			}},
		})
	}
	peer.Script(func(q mm) []byte {
		_, c, nonce, _, _, _, err := m.DecodeGatewayDHTDiscoverRequest(q)
		if err != nil {
			return nil
		}
		return vnode.Bytes(peer.Sign(m.EncodeGatewayDHTDiscoverResponse(c, nonce, true, subs(sub), []bool{false})))
	})
	seller.Script(func(q mm) []byte {
		if r := listed(q); r != nil {
			return vnode.Bytes(seller.Sign(r, nil))
		}
		return []byte{}
	})
	vnode.Registers(t, "gateway", n.Reg, func() string {
		r := vnode.Send(n.Admin, n.Me.Sign(m.EncodeGatewayAdminForceRefreshRequest(true)))
		if r.Msg() == nil {
			return ""
		}
		return "read"
	}, []func() string{v1, list, func() string {
		if !n.Publish(pv, true, offer()) {
			return ""
		}
		return "acknowledged"
	}})
}
