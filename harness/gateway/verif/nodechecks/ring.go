//go:build go1.21

package nodechecks

import (
	"fmt"
	"math/big"

	"github.com/ConsenSys/fc-retrieval/common/pkg/fcrmessages"

	"github.com/ConsenSys/fc-retrieval/common/verif/vnode"
)

// ringDist is the length of the shorter way round, as text that sorts.
func ringDist(a, b string) string {
	x, _ := new(big.Int).SetString(a, 16)
	y, _ := new(big.Int).SetString(b, 16)
	full := new(big.Int).Lsh(big.NewInt(1), 256)
	d := new(big.Int).Sub(x, y)
	d.Mod(d, full)
	e := new(big.Int).Sub(full, d)
	if e.Cmp(d) < 0 {
		d = e
	}
	return fmt.Sprintf("%064x", d)
}

// honest answers everything a gateway asks another.
func honest(p *vnode.Peer) func(m *fcrmessages.FCRMessage) []byte {
	return func(m *fcrmessages.FCRMessage) []byte { return vnode.Bytes(honestReply(p.Ident, m)) }
}

func honestReply(p *vnode.Ident, m *fcrmessages.FCRMessage) *fcrmessages.FCRMessage {
	switch m.GetMessageType() {
	case fcrmessages.GatewayDHTDiscoverRequestType:
		_, c, n, _, _, _, err := fcrmessages.DecodeGatewayDHTDiscoverRequest(m)
		vnode.Must(err)
		r, err := fcrmessages.EncodeGatewayDHTDiscoverResponse(c, n, true, nil, nil)
		return p.Sign(r, err)
	case fcrmessages.GatewayDHTDiscoverRequestV2Type:
		_, c, n, _, _, _, err := fcrmessages.DecodeGatewayDHTDiscoverRequestV2(m)
		vnode.Must(err)
		r, err := fcrmessages.EncodeGatewayDHTDiscoverResponseV2(c, n, true, []string{"11" + p.Hex[:62]}, []bool{false}, false, "")
		return p.Sign(r, err)
	case fcrmessages.GatewayDHTDiscoverOfferRequestType:
		c, n, _, _, _, err := fcrmessages.DecodeGatewayDHTDiscoverOfferRequest(m)
		vnode.Must(err)
		r, err := fcrmessages.EncodeGatewayDHTDiscoverOfferResponse(c, n, false, nil, nil, false, "")
		return p.Sign(r, err)
	}
	r, err := fcrmessages.EncodeInvalidMessageResponse()
	return p.Sign(r, err)
}
