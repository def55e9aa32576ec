//go:build go1.21

// Package nodechecks drives a whole gateway - its real main, servers, handlers,
// store and payment manager - over its REST and P2P ports.
package nodechecks

import (
	"fmt"
	"math/big"
	"os"
	"strings"
	"time"

	"github.com/ConsenSys/fc-retrieval/common/pkg/cid"
	"github.com/ConsenSys/fc-retrieval/common/pkg/cidoffer"
	"github.com/ConsenSys/fc-retrieval/common/pkg/fcrmessages"

	"github.com/ConsenSys/fc-retrieval/common/verif/vh"
	"github.com/ConsenSys/fc-retrieval/common/verif/vlotus"
	"github.com/ConsenSys/fc-retrieval/common/verif/vnode"
)

// Prices of the node.
const (
	SearchPrice = 7
	OfferPrice  = 11
)

var checks = map[string]func(t *vh.T, main func()){}

// Run runs a check; it does not return.
func Run(id string, main func()) {
	f := checks[id]
	if f == nil {
		panic("harness: no check " + id)
	}
	vh.Main(func(t *vh.T) { f(t, main) })
}

// Node is a running gateway.
type Node struct {
	T                     *vh.T
	Chain                 *vlotus.Chain
	Reg                   *vnode.Register
	Me                    *vnode.Ident
	Rest, Admin, Gw, Prov string
	G, P                  *vnode.P2P
	nonce                 int64
}

// Start runs the gateway; more settings may be given as name=value.
func Start(t *vh.T, main func(), env ...string) *Node {
	n := &Node{T: t, Chain: &vlotus.Chain{}, Reg: vnode.NewRegister()}
	vlotus.Current = n.Chain
	n.Me = vnode.NewIdent("node", 1, "80")
	n.Rest, n.Admin, n.Gw, n.Prov = vnode.Port(), vnode.Port(), vnode.Port(), vnode.Port()
	n.G, n.P = &vnode.P2P{Port: n.Gw}, &vnode.P2P{Port: n.Prov}
	for k, v := range map[string]string{
		"BIND_REST_API": n.Rest, "BIND_ADMIN_API": n.Admin, "BIND_GATEWAY_API": n.Gw, "BIND_PROVIDER_API": n.Prov,
		"REGISTER_API_URL": n.Reg.URL, "SEARCH_PRICE": fmt.Sprint(SearchPrice), "OFFER_PRICE": fmt.Sprint(OfferPrice), "TOPUP_AMOUNT": "1000000000",
		"TCP_INACTIVITY_TIMEOUT": "5s", "LOG_LEVEL": logLevel(), "LOG_TARGET": "STDOUT", "LOG_SERVICE_NAME": "gateway",
	} {
		os.Setenv(k, v)
	}
	for _, e := range env {
		i := strings.Index(e, "=")
		os.Setenv(e[:i], e[i+1:])
	}
	os.Args = os.Args[:1]
	n.Reg.Gateway(n.Me, "127.0.0.1:"+n.Gw, "127.0.0.1:"+n.Prov, "127.0.0.1:"+n.Rest)
	go main()
	for _, p := range []string{n.Rest, n.Admin, n.Gw, n.Prov} {
		vnode.WaitPort(p)
	}
	return n
}

// Init gives the node its keys, as its administrator does, and has it read the register.
func (n *Node) Init() {
	m, err := fcrmessages.EncodeGatewayAdminInitialiseKeyRequestV2(n.Me.ID, n.Me.Key, vnode.Ver, n.Me.Wallet.Hex, "http://lotus/rpc/v0", "token")
	r := vnode.Send(n.Admin, n.Me.Sign(m, err))
	if m := r.Msg(); !n.Me.Signed(m) {
		n.T.Violate("setup:init", "installing a key failed: "+r.String(), nil)
		panic("the node cannot be set up: " + r.String())
	}
	n.Refresh()
}

// Refresh has the node read the register.
func (n *Node) Refresh() {
	m, err := fcrmessages.EncodeGatewayAdminForceRefreshRequest(true)
	r := vnode.Send(n.Admin, n.Me.Sign(m, err))
	if m := r.Msg(); !n.Me.Signed(m) {
		panic("the node cannot read the register: " + r.String())
	}
}

// Nonce is a new number.
func (n *Node) Nonce() int64 { n.nonce++; return 1000 + n.nonce*3 }

// TTL is a time to live well ahead.
func TTL() int64 {
	if late != 0 {
		return time.Now().Unix() + late
	}
	return time.Now().Unix() + 1000
}

var late int64

// Publish puts an offer of a provider into the node; it tells whether it was acknowledged.
func (n *Node) Publish(pv *vnode.Ident, dht bool, o *cidoffer.CIDOffer) bool {
	var m *fcrmessages.FCRMessage
	var err error
	if dht {
		m, err = fcrmessages.EncodeProviderPublishDHTOfferRequest(pv.ID, n.Nonce(), []cidoffer.CIDOffer{*o})
	} else {
		m, err = fcrmessages.EncodeProviderPublishGroupOfferRequest(pv.ID, n.Nonce(), o)
	}
	r, err := n.P.Ask(vnode.Bytes(pv.Sign(m, err)))
	vnode.Must(err)
	return n.Me.Signed(r) && (r.GetMessageType() == fcrmessages.ProviderPublishDHTOfferResponseType || r.GetMessageType() == fcrmessages.ProviderPublishGroupOfferResponseType)
}

// Stored is what free discovery returns for a CID.
func (n *Node) Stored(c *cid.ContentID) ([]cidoffer.SubCIDOffer, error) {
	m, err := fcrmessages.EncodeClientStandardDiscoverRequest(c, n.Nonce(), TTL(), "", "")
	vnode.Must(err)
	r := vnode.Send(n.Rest, m)
	rm := r.Msg()
	if rm == nil {
		return nil, fmt.Errorf("discovery: %s", r)
	}
	_, _, _, l, _, err := fcrmessages.DecodeClientStandardDiscoverResponse(rm)
	return l, err
}

// Digest is an offer's name.
func Digest(o *cidoffer.CIDOffer) string { return cidoffer.EncodeMessageDigest(o.GetMessageDigest()) }

// SubKey writes all terms of a sub-offer but its proof out.
func SubKey(s *cidoffer.SubCIDOffer) string {
	if s == nil || s.GetProviderID() == nil || s.GetSubCID() == nil {
		return "(empty)"
	}
	return fmt.Sprint(s.GetProviderID().ToString(), " ", s.GetSubCID().ToString(), " ", s.GetMerkleRoot(), " ", s.GetPrice(), " ", s.GetExpiry(), " ", s.GetQoS(), " ", s.GetSignature())
}

// SubKeyOf is the key of the sub-offer an offer has for a CID, empty when it does not cover it.
func SubKeyOf(o *cidoffer.CIDOffer, c *cid.ContentID) string {
	s, err := o.GenerateSubCIDOffer(c)
	if err != nil {
		return ""
	}
	return SubKey(s)
}

// Covers tells whether an offer covers a CID.
func Covers(o *cidoffer.CIDOffer, c *cid.ContentID) bool {
	for _, x := range o.GetCIDs() {
		if x.ToString() == c.ToString() {
			return true
		}
	}
	return false
}

func zero() *big.Int { return new(big.Int) }

func logLevel() string {
	if l := os.Getenv("VERIF_LOG"); l != "" {
		return l
	}
	return "fatal"
}
