//go:build go1.21

package nodechecks

import (
	"github.com/ConsenSys/fc-retrieval/common/pkg/cid"
	"github.com/ConsenSys/fc-retrieval/common/pkg/cidoffer"
	"github.com/ConsenSys/fc-retrieval/common/pkg/fcrcrypto"
	m "github.com/ConsenSys/fc-retrieval/common/pkg/fcrmessages"

	"github.com/ConsenSys/fc-retrieval/common/verif/vh"
	"github.com/ConsenSys/fc-retrieval/common/verif/vnode"
)

func init() { checks["c21"] = c21 }

// c21: no alteration of any request stops the running provider.
func c21(t *vh.T, main func()) {
	n := Start(t, main)
	g := vnode.NewPeer(vnode.NewIdent("gateway", 3, "82"))
	n.Reg.Gateway(g.Ident, "127.0.0.1:1", g.Addr, "127.0.0.1:1")
	served, doors := n.serves(g)
	mine := []vnode.Served{}
	for i, s := range served {
		if t.Mine(i) {
			mine = append(mine, s)
		}
	}
	vnode.Malformed(t, "provider", doors, mine, false, nil)
	n.Init()
	n.Refresh()
	vnode.Malformed(t, "provider", doors, mine, true, func(s vnode.Served) {
		switch s.Type {
		case m.ProviderAdminInitialiseKeyRequestType, m.ProviderAdminInitialiseKeyRequestV2Type:
			n.Init()
		}
	})
	k := 0
	type mm = *m.FCRMessage
	dht := func() string {
		k++
		r := vnode.Send(n.Admin, n.Me.Sign(m.EncodeProviderAdminPublishDHTOfferRequest([]cid.ContentID{*vnode.CID("82", 1000+k)}, []uint64{1}, []int64{vnode.Forever}, []uint64{2})))
		if r.Msg() == nil {
			return ""
		}
		return "published"
	}
	group := func() string {
		k++
		r := vnode.Send(n.Admin, n.Me.Sign(m.EncodeProviderAdminPublishGroupOfferRequest([]cid.ContentID{*vnode.CID("82", 1000+k), *vnode.CID("82", 9)}, 1, vnode.Forever, 2)))
		if r.Msg() == nil {
			return ""
		}
		return "published"
	}
	answer := func(q mm) mm {
		sig, err := fcrcrypto.SignMessage(g.Key, vnode.Ver, q.GetMessageBody())
		vnode.Must(err)
		var r mm
		if _, nonce, _, err := m.DecodeProviderPublishDHTOfferRequest(q); err == nil {
			r, err = m.EncodeProviderPublishDHTOfferResponse(nonce, sig)
			vnode.Must(err)
		} else if _, _, o, err := m.DecodeProviderPublishGroupOfferRequest(q); err == nil {
			r, err = m.EncodeProviderPublishGroupOfferResponse(*g.ID, cidoffer.EncodeMessageDigest(o.GetMessageDigest()))
			vnode.Must(err)
		}
		return r
	}
	if t.Mine(0) {
		vnode.Replies(t, "provider", g, []vnode.Question{{Name: "publication of a DHT offer", Ask: dht, Reply: answer}})
	}
	if t.Mine(1) {
		vnode.Replies(t, "provider", g, []vnode.Question{{Name: "publication of a group offer", Ask: group, Reply: answer}})
	}
	g.Script(func(q mm) []byte {
		if r := answer(q); r != nil {
			return vnode.Bytes(g.Sign(r, nil))
		}
		return nil
	})
	vnode.Registers(t, "provider", n.Reg, func() string {
		r := vnode.Send(n.Admin, n.Me.Sign(m.EncodeProviderAdminForceRefreshRequest(true)))
		if r.Msg() == nil {
			return ""
		}
		return "read"
	}, []func() string{dht, group})
}
